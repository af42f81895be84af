"""Value-range analysis of the generated references and of the announced reference range."""
from .. import terms as tm
from ..check import norm
from ..envstub import *
from ..interp import arr
from ..rig import S, m, box

WAVES = ("SinusoidalReferenceGenerator", "StepReferenceGenerator", "TriangularReferenceGenerator", "SawtoothReferenceGenerator")
PROCESSES = ("WienerProcessReferenceGenerator", "LaplaceProcessReferenceGenerator")
EPS = 1e-9


def configured(margin, low, high, ratio):
    """The documented range for a margin, a state range and a nominal to limit ratio."""
    if margin is None:
        return ratio * low, ratio * high
    if isinstance(margin, tuple):
        return margin[0] * low, margin[1] * high
    return margin * low, margin * high


def system(rg, bounds, ratio):
    """Different ranges and ratios for every state, so that one state's data cannot pass for another's."""
    it = rg.it
    n = len(rg.names)
    lo = [bounds[0] - 0.0 if k == 2 else -0.07 * (k + 1) for k in range(n)]
    hi = [bounds[1] if k == 2 else 0.03 * (k + 1) for k in range(n)]
    rg.system.attrs["_state_space"] = box(it, lo, hi)
    rg.system.attrs["_lim"] = arr([4.0 if k == 2 else 40.0 + k for k in range(n)])
    rg.system.attrs["_nom"] = arr([4.0 * ratio if k == 2 else 1.0 + k for k in range(n)])


def scalar_bounds(it, space):
    lo, hi = norm(it.getattr(space, "low"), it), norm(it.getattr(space, "high"), it)
    one = lambda v: v[0] if isinstance(v, list) else v
    return one(lo), one(hi), lo


def inside(ck, rule, cons, v, want):
    ck.within(rule, cons, v, want[0], want[1], "references")


def drive(ck, cons, rg, g, want, n_ep, n_step, slot=2):
    it = rg.it
    dim = len(rg.names)
    for ep in range(n_ep):
        ini = None if ep % 2 == 0 else arr([S("r%d in %s" % (ep, want), ("range",) + tuple(want)) if j == slot else 0.0 for j in range(dim)])
        st = arr([S("x%d_%d" % (ep, j)) for j in range(dim)])
        r = it.iterate(m(it, g, "reset", st, ini) if ini is not None else m(it, g, "reset", st))
        obs = it.iterate(r[1])
        ck.require("width", "%s episode %d" % (cons, ep), len(obs) == 1, "the reference observation has %d entries" % len(obs))
        inside(ck, "range", "%s first reference of episode %d" % (cons, ep), obs[0], want)
        for k in range(n_step):
            m(it, g, "get_reference", st)
            o = it.iterate(m(it, g, "get_reference_observation", st))
            inside(ck, "range", "%s episode %d step %d" % (cons, ep, k), o[0], want)


def run(ck):
    ck.rule("announced", "the announced reference space is the configured margin applied to the range of the referenced state")
    ck.rule("range", "value-range analysis: every generated reference lies inside the announced range, for every random draw")
    ck.rule("width", "one value per referenced state")
    ck.rule("initial-draw", "a randomly drawn initial reference lies inside the announced range")
    ck.rule("sub-range", "the combined generators announce a space that contains the spaces of the parts in use")
    ck.rule("default-env", "the reference space announced by every environment class lies in the state space of the referenced states, and its references stay inside")
    margins = (None, 0.4, 1, (0.3, 0.8), (0.0, 1.0), (0.9, 0.2))
    spaces = ((-1.0, 1.0), (0.0, 1.0), (-0.5, 2.0))
    for name in WAVES + PROCESSES:
        for margin in margins:
            for bounds in spaces:
                cons = "%s margin %s range %s" % (name, margin, bounds)
                with ck.guard("range", cons):
                    rg = EnvRig(ck)
                    it = rg.it
                    system(rg, bounds, 0.7)
                    want = configured(margin, bounds[0], bounds[1], 0.7)
                    kw = {} if margin is None else dict(limit_margin=margin)
                    g = it.call(ck.cls(it, name), [], dict(reference_state="i", episode_lengths=4, **kw))
                    m(it, g, "set_modules", rg.system)
                    announced(ck, cons, it, g, want)
                    drive(ck, cons, rg, g, want, 2 if ck.tier == "quick" else 4, 5 if ck.tier == "quick" else 9)
                    if name == "WienerProcessReferenceGenerator":
                        r = it.iterate(m(it, g, "reset", arr([0.0] * 5)))
                        inside(ck, "initial-draw", cons, norm(r[0], it)[2], want)
    parameters(ck)
    symbolic(ck)
    combined(ck)
    envs(ck)
    ck.min_decided = 900


def announced(ck, cons, it, g, want):
    lo, hi, raw = scalar_bounds(it, it.res(it.getattr(g, "reference_space")))
    ck.require("announced", cons + " dimension", not isinstance(raw, list) or len(raw) == 1, "%s" % (raw,))
    ck.eq("announced", cons + " low", lo, want[0], it=it)
    ck.eq("announced", cons + " high", hi, want[1], it=it)


def parameters(ck):
    """User-given amplitude, offset, frequency and deviation ranges, also ones that exceed the range."""
    sets = (
        dict(amplitude_range=(0.0, 0.3), offset_range=(-0.2, 0.2)),
        dict(amplitude_range=(0.5, 9.0), offset_range=(-9.0, 9.0), frequency_range=(1, 100)),
        dict(amplitude_range=(2.0, 3.0), offset_range=(0.6, 0.7)),
    )
    sigma = (dict(sigma_range=(1e-3, 10.0)), dict(sigma_range=(5.0, 50.0)))
    for name in WAVES + PROCESSES:
        for margin in (0.6, (0.2, 0.9)):
            for bounds in ((-1.0, 1.0), (0.0, 1.0)):
                for par in sets if name in WAVES else sigma:
                    cons = "%s margin %s range %s %s" % (name, margin, bounds, sorted(par.items()))
                    with ck.guard("range", cons):
                        rg = EnvRig(ck)
                        it = rg.it
                        system(rg, bounds, 0.7)
                        want = configured(margin, bounds[0], bounds[1], 0.7)
                        g = it.call(ck.cls(it, name), [], dict(reference_state="i", episode_lengths=(3, 3), limit_margin=margin, **par))
                        m(it, g, "set_modules", rg.system)
                        drive(ck, cons, rg, g, want, 2, 4)


def symbolic(ck):
    """The announced range for symbolic margins, limits, nominal values and state ranges."""
    for name in WAVES + PROCESSES:
        for lab in ("default", "scalar", "tuple"):
            for k, state in enumerate(NAMES):
                cons = "%s %s margin of %s" % (name, lab, state)
                with ck.guard("announced", cons):
                    rg = EnvRig(ck)
                    it = rg.it
                    lo, hi = rg.low[k], rg.high[k]
                    kw = {}
                    a, b = 0.37, 0.81
                    if lab == "default":
                        f = tm.div(rg.nominal[k], rg.limits[k])
                        want = (tm.mul(f, lo), tm.mul(f, hi))
                    elif lab == "scalar":
                        kw = dict(limit_margin=a)
                        want = (tm.mul(a, lo), tm.mul(a, hi))
                    else:
                        kw = dict(limit_margin=(a, b))
                        want = (tm.mul(a, lo), tm.mul(b, hi))
                    if name in WAVES:
                        kw.update(amplitude_range=(0.1, 0.2), offset_range=(0.0, 0.1))
                    g = it.call(ck.cls(it, name), [], dict(reference_state=state, episode_lengths=2, **kw))
                    m(it, g, "set_modules", rg.system)
                    announced(ck, cons, it, g, want)
    with ck.guard("announced", "constant reference"):
        rg = EnvRig(ck)
        it = rg.it
        v = S("constant", ("range", -1, 1))
        g = it.call(ck.cls(it, "ConstReferenceGenerator"), [], dict(reference_state="i", reference_value=v))
        m(it, g, "set_modules", rg.system)
        announced(ck, "constant reference", it, g, (v, v))
        o = it.iterate(m(it, g, "reset", arr([0.0] * 5)))[1]
        ck.eq("range", "constant reference", o, [v], it=it)


def combined(ck):
    for lens in ((1, 2), (3, 4)):
        cons = "switched, super episodes of %d" % lens[0]
        with ck.guard("sub-range", cons):
            rg = EnvRig(ck)
            it = rg.it
            system(rg, (-1.0, 1.0), 0.7)
            ms = (0.3, (0.2, 0.9), None)
            subs = [it.call(ck.cls(it, n), [], dict(reference_state="i", episode_lengths=3, **({} if mg is None else dict(limit_margin=mg)))) for n, mg in zip(("SinusoidalReferenceGenerator", "WienerProcessReferenceGenerator", "StepReferenceGenerator"), ms)]
            g = it.call(ck.cls(it, "SwitchedReferenceGenerator"), [subs], dict(super_episode_length=lens))
            m(it, g, "set_modules", rg.system)
            rs = [configured(mg, -1.0, 1.0, 0.7) for mg in ms]
            want = (min(r[0] for r in rs), max(r[1] for r in rs))
            announced(ck, cons, it, g, want)
            drive(ck, cons, rg, g, want, 2, 4)
    with ck.guard("sub-range", "multiple"):
        rg = EnvRig(ck)
        it = rg.it
        g1 = it.call(ck.cls(it, "LaplaceProcessReferenceGenerator"), [], dict(reference_state="i", episode_lengths=3, limit_margin=0.4))
        g2 = it.call(ck.cls(it, "StepReferenceGenerator"), [], dict(reference_state="u", episode_lengths=2, limit_margin=(0.2, 0.5)))
        rg.system.attrs["_state_space"] = box(it, [-0.1, -0.2, -1.0, -0.8, 0.0], [0.3, 0.4, 1.0, 0.9, 0.7])
        g = it.call(ck.cls(it, "MultipleReferenceGenerator"), [[g1, g2]], {})
        m(it, g, "set_modules", rg.system)
        sp = it.res(it.getattr(g, "reference_space"))
        want = [(-0.4, 0.4), (0.2 * -0.8, 0.5 * 0.9)]
        ck.eq("announced", "multiple low", it.getattr(sp, "low"), [w[0] for w in want], it=it)
        ck.eq("announced", "multiple high", it.getattr(sp, "high"), [w[1] for w in want], it=it)
        st = arr([0.0] * 5)
        o = it.iterate(it.iterate(m(it, g, "reset", st))[1])
        for k in range(5):
            for j in (0, 1):
                inside(ck, "range", "multiple part %d step %d" % (j, k), o[j], want[j])
            m(it, g, "get_reference", st)
            o = it.iterate(m(it, g, "get_reference_observation", st))


def envs(ck):
    from .E03 import env_classes

    it = ck.interp()
    for c in env_classes(it):
        with ck.guard("default-env", c.name):
            e = it.call(c, [], {})
            g = it.getattr(e, "reference_generator")
            ps = it.getattr(e, "physical_system")
            names = list(it.iterate(it.getattr(ps, "state_names")))
            refs = list(it.iterate(it.getattr(e, "reference_names")))
            full = it.res(it.getattr(ps, "state_space"))
            idx = [names.index(r) for r in refs]
            pick = lambda o, a: [norm(it.getattr(o, a), it)[i] for i in idx]
            lo, hi, nom, lim = pick(full, "low"), pick(full, "high"), pick(ps, "nominal_state"), pick(ps, "limits")
            sp = it.res(it.getattr(g, "reference_space"))
            rl, rh = norm(it.getattr(sp, "low"), it), norm(it.getattr(sp, "high"), it)
            ck.require("default-env", c.name + " width", len(rl) == len(refs) == len(rh), "%d references, space of size %d" % (len(refs), len(rl)))
            for k, r in enumerate(refs):
                b = [tm.interval(x) for x in (rl[k], rh[k], lo[k], hi[k])]
                good = b[2][1] - EPS <= b[0][0] and b[1][1] <= b[3][0] + EPS
                ck.require("default-env", "%s %s inside" % (c.name, r), good, "reference range [%s, %s], state range [%s, %s]" % (rl[k], rh[k], lo[k], hi[k]))
