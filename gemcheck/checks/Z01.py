"""Visualization observes: runs with and without it agree, and no notification or rendering touches the simulation."""
from .. import terms as tm
from .. import plotstub
from ..check import norm
from ..corpus import *
from ..interp import arr
from ..rig import S, m
from ..values import *
from .S04 import compare
from .S05 import diff, picture

W = 3
NOISE = '''
from gym_electric_motor.core import Callback
from gym_electric_motor.random_component import RandomComponent

class NoiseCallback(Callback, RandomComponent):
    """A user's callback that draws random numbers and disturbs the load."""
    def __init__(self):
        Callback.__init__(self)
        RandomComponent.__init__(self)
        self.drawn = []
    def on_reset_begin(self):
        self.next_generator()
    def on_step_begin(self, k, action):
        self.drawn.append(self.random_generator.normal())

class Fail:
    """Constraint that is violated in given steps."""
    def __init__(self, at):
        self.at = at
        self.n = 0
    def __call__(self, state):
        self.n += 1
        return 1.0 if self.n in self.at else 0.0
'''


def dashboards(w):
    """name -> maker of the visualizations of one environment."""
    new = w.new

    def extra():
        return tuple(new(c) for c in ("EpisodeLengthPlot", "MeanEpisodeRewardPlot", "CumulativeConstraintViolationPlot"))

    mode = w.it.load_text("gemspec.modes", "from gym_electric_motor.visualization.render_modes import RenderMode\n").ns["RenderMode"]
    M = lambda n: w.it.getattr(mode, n)
    full = lambda **k: new("MotorDashboard", state_plots="all", action_plots="all", reward_plot=True, additional_plots=extra(), time_plot_width=W, **k)
    return {
        "dashboard, everything each step": lambda: (full(update_interval=1),),
        "dashboard and printer": lambda: (full(update_interval=2), new("ConsolePrinter", verbose=2)),
        "printer": lambda: (new("ConsolePrinter", verbose=1),),
        "silent printer": lambda: (new("ConsolePrinter"),),
        "dashboard, figure per step": lambda: (full(update_interval=1, render_mode=M("Figure")),),
        "dashboard, figure at the end": lambda: (full(update_interval=1, render_mode=M("FigureOnce")),),
        "empty dashboard": lambda: (new("MotorDashboard"),),
        "two dashboards": lambda: (new("MotorDashboard", state_plots="all", update_interval=1), new("MotorDashboard", reward_plot=True, additional_plots=extra(), update_interval=1)),
    }


def episodes(w, e, seed, plan, render=True, extra=None):
    """Outputs of several episodes; plan: number of steps each; rendering before the first step and after each."""
    it = w.it
    ep = Episode()
    for j, n in enumerate(plan):
        r = it.iterate(m(it, e, "reset", **({"seed": seed} if j == 0 else {})))
        ob = it.iterate(r[0])
        ep.out.append(("reset %d state" % j, snapv(it, ob[0])))
        ep.out.append(("reset %d reference" % j, snapv(it, ob[1])))
        for k in range(n):
            if render:
                m(it, e, "render")
            r = it.iterate(m(it, e, "step", action(it, e, "a", k, j)))
            ob = it.iterate(r[0])
            tag = "step %d.%d " % (j, k + 1)
            ep.out += [(tag + "state", snapv(it, ob[0])), (tag + "reference", snapv(it, ob[1])), (tag + "reward", snapv(it, r[1])), (tag + "terminated", snapv(it, r[2]))]
        if extra:
            extra(j)
    m(it, e, "close")
    return ep


def run(ck):
    ck.rule("same-run", "the outputs of reset and step are the same with and without visualization, rendering, figure resets and forced rendering, for every visualization and environment")
    ck.rule("untouched", "no notification or rendering of a visualization changes any attribute, element or entry of the environment or its components")
    ck.rule("arrays", "the state, reference and action handed to a visualization are not written, neither at once nor later")
    ck.rule("effects", "visualizations write no class or module state of the simulation and draw no random numbers")
    w = World(ck)
    it = w.it
    figures, drawn = [], []
    plotstub.pyplot(it, figures, drawn)
    g = it.load_text("gemspec.z01", NOISE).ns
    seed = S("seed", "nat")
    D = dashboards(w)
    full = D["dashboard, everything each step"]
    plan = (2, 1) if ck.tier == "quick" else (5, 0, 3)
    some = [cls("Cont", "Speed", "permex"), cls("Finite", "Current", "pmsm"), cls("Finite", "Torque", "eesm"), cls("Cont", "Torque", "scim"), cls("Finite", "Current", "extex")]

    for name in w.envs:
        pick = list(D) if name in some or ck.tier == "thorough" else ["dashboard and printer"]
        with ck.guard("same-run", name):
            ref = episodes(w, build(w, g, name), seed, plan, render=False)
            for dn in pick:
                con = "%s with %s" % (name, dn)
                with ck.guard("same-run", con):
                    vis = D[dn]()
                    compare(ck, "same-run", con, ref, episodes(w, build(w, g, name, visualization=vis), seed, plan, extra=lambda j: press(it, vis, j)))
    # terminated episodes
    for name in some:
        with ck.guard("same-run", name + " terminated"):
            mk = lambda **k: w.env(name, constraints=[it.call(g["Fail"], [(2, 5)], {})], **k)
            ref = episodes(w, mk(), seed, (2, 3, 1), render=False)
            for dn in ("dashboard, everything each step", "printer", "dashboard, figure per step"):
                compare(ck, "same-run", "%s terminated, %s" % (name, dn), ref, episodes(w, mk(visualization=D[dn]()), seed, (2, 3, 1)))
    # a single visualization instead of a sequence, and classes
    name = some[0]
    with ck.guard("same-run", "ways to pass a visualization"):
        ref = episodes(w, build(w, g, name), seed, plan, render=False)
        for lab, v in (("instance", w.new("ConsolePrinter")), ("None", None), ("list", [w.new("MotorDashboard", reward_plot=True)])):
            compare(ck, "same-run", "visualization as %s" % lab, ref, episodes(w, build(w, g, name, visualization=v), seed, plan))

    for name in (w.envs if ck.tier == "thorough" else some + [cls("Cont", "Current", "dfim"), cls("Cont", "Speed", "series"), cls("Cont", "Current", "synrm"), cls("Finite", "Speed", "shunt")]):
        for dn in (D if name in some[:2] else ["dashboard, everything each step"]):
            con = "%s with %s" % (name, dn)
            with ck.guard("untouched", con):
                untouched(ck, w, g, name, con, D[dn]())
    ck.min_decided = 4000


def build(w, g, name, **k):
    return w.env(name, callbacks=(w.it.call(g["NoiseCallback"], [], {}),), **k)


def has_plots(it, v):
    """Does the dashboard hold anything to draw? (Without plots it has no figures to force or reset.)"""
    for x in it.res(v).attrs.values():
        x = it.res(x)
        if isinstance(x, (list, tuple)) and any(isinstance(it.res(y), Obj) and it.res(y).cls is not None and it.res(y).cls.lookup("initialize")[0] is not None and it.res(y).cls.lookup("render")[0] is not None for y in x):
            return True
    return False


def press(it, vis, j):
    """What a user may do with a dashboard between episodes."""
    for v in vis:
        for name in ("force_render", "reset_figures", "force_render") if j % 2 == 0 else ("reset_figures",):
            if it.res(v).cls.lookup(name)[0] is not None and has_plots(it, v):
                m(it, v, name)


def untouched(ck, w, g, name, con, vis):
    it = w.it
    e = w.env(name)
    held = []

    def do(v, what, *args):
        before, keep = picture(it, e)
        n0 = len(it.events)
        m(it, v, what, *args)
        after, keep2 = picture(it, e)
        d = diff(before, after)
        ck.require("untouched", "%s %s" % (con, what), d is None, str(d))
        for a, want in held:
            ck.require("arrays", "%s %s" % (con, what), all(x is y or (not isinstance(x, tm.T) and x == y) for x, y in zip(a.reshape(-1), want)), "an array given to the visualization is written by %s" % what)
        bad = [x for x in it.events[n0:] if (x.kind in ("class_write", "module_write") and ".visualization" not in str(x.loc).split(" ")[0] and not own(x)) or x.kind in ("draw", "scipy_draw", "global_random")]
        ck.require("effects", "%s %s" % (con, what), not bad, "%s %s at %s" % (bad[0].kind, bad[0].name, bad[0].loc) if bad else "")

    def hold(v):
        v = it.res(v)
        if isinstance(v, np.ndarray):
            held.append((v, [x for x in v.reshape(-1)]))
        return v

    for v in vis:
        do(v, "set_env", e)
    for rd in range(2):
        for v in vis:
            do(v, "on_reset_begin")
        ob = it.iterate(it.iterate(m(it, e, "reset"))[0])
        st = hold(it.res(it.getattr(e, "physical_system")) and arr([S("s%d %s" % (rd, q)) for q in it.iterate(it.getattr(it.getattr(e, "physical_system"), "state_names"))]))
        for v in vis:
            do(v, "on_reset_end", st, hold(arr(list(st))))
            do(v, "render")
        for k in range(3):
            a = action(it, e, "a", k, rd)
            for v in vis:
                do(v, "on_step_begin", k, hold(a))
            st = hold(arr([S("s%d.%d %d" % (rd, k, j)) for j in range(len(st))]))
            rf = hold(arr([S("r%d.%d %d" % (rd, k, j)) for j in range(len(st))]))
            for v in vis:
                do(v, "on_step_end", k + 1, st, rf, S("reward%d.%d" % (rd, k)), k == 2)
                do(v, "render")
        for v in vis:
            for what in ("reset_figures", "force_render"):
                if it.res(v).cls.lookup(what)[0] is not None and has_plots(it, v):
                    do(v, what)
    for v in vis:
        do(v, "on_close")


def own(x):
    """Class state of the visualization package itself (colour cycles, style tables)."""
    c = x.obj if isinstance(x.obj, Cls) else None
    return c is not None and ".visualization" in str(getattr(c.module, "name", c.module))
