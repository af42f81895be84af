"""Plots and dashboard: drawn series against a reference model of the history; dispatch of notifications; labels."""
import ast
import re

from .. import terms as tm
from .. import plotstub
from ..check import norm
from ..corpus import *
from ..gcrig import *
from ..sources import modules

TAU = 0.25
W = 4
HISTORIES = ("", "v", "Rv", "Rsv", "Rvsvsvsv", "Rssssv", "Rsssssssv", "RvsssssssvRsv", "RsstRsv", "RvstRvsv", "RRsv", "RsRRssRv", "RvRvsvRvRv", "RstRssRsv",
             "RsvCsv", "RssvCvRsvRv", "RsRsvCsssRssRv", "RvCvsv", "RsCRssRtRv", "RstvCRsstvRv", "RssRCv", "RstRCssv", "RsCRRv", "RssCsRRsRv",
             "RstRssstRsstRsv", "RtRtv", "RvsstRsstvRtRsv", "RstRssstvCRsstRssstv")

KINDS = ("TimePlot", "EpisodePlot", "StepPlot")
PROBE = '''
class Probe(BASE):
    def __init__(self, tag):
        super().__init__()
        self.tag = tag
    def set_width(self, width):
        LOG("set_width", self.tag, width)
    def set_env(self, env):
        LOG("set_env", self.tag)
    def initialize(self, axis):
        LOG("initialize", self.tag, axis)
    def render(self):
        LOG("render", self.tag)
    def reset_data(self):
        LOG("reset_data", self.tag)
    def on_reset_begin(self):
        LOG("on_reset_begin", self.tag)
    def on_reset_end(self, state, reference):
        LOG("on_reset_end", self.tag, state, reference)
    def on_step_begin(self, k, action):
        LOG("on_step_begin", self.tag, k, action)
    def on_step_end(self, k, state, reference, reward, terminated):
        LOG("on_step_end", self.tag, k, state, reference, reward, terminated)
    def on_close(self):
        LOG("on_close", self.tag)
'''


def run(ck):
    ck.rule("series", "after every rendering each line shows exactly one sample per step (or episode) of the history with the matching time, in physical units; x and y of every line have the same length")
    ck.rule("markers", "a vertical line marks every constraint violation and every manual reset at its time, once, in the colour of its kind")
    ck.rule("limits", "state plots draw the limits of the state in physical units")
    ck.rule("scale", "with scale_plots the y axis covers the drawn data of every plot, without it the axis keeps the range of the quantity")
    ck.rule("dispatch", "every plot of a dashboard gets every notification exactly once with the arguments of the environment")
    ck.rule("selection", "the plots selected by name or 'all' are those of the states and actions named")
    ck.rule("update", "rendering updates every plot once per update interval, on demand, and after new figures were made")
    ck.rule("console", "the console shows, for each finished episode, its number of steps, the sum of its rewards and why it ended, and for each printed step the physical state and reference, reward and cumulative reward")
    ck.rule("labels", "labels are well-formed formulas and name the quantity and unit of their state")
    w = GcWorld(ck)
    it = w.it
    stub = plotstub.load(it)
    for name in ("PMSM", "EESM finite", "Series"):
        with ck.guard("series", name):
            if name == "PMSM":
                e = w.env_of(Combo("Cont", "Current", "pmsm"), tau=TAU)
            elif name == "EESM finite":
                e = w.env_of(Combo("Finite", "Torque", "eesm"), tau=TAU)
            else:
                e = w.env_of(Combo("Cont", "Speed", "series"), tau=TAU)
            series(ck, w, stub, e, name)
    scale(ck, w, stub)
    fixed_range(ck, w, stub)
    episode_axes(ck, w, stub)
    dispatch(ck, w)
    labels(ck, w)
    console(ck)
    ck.min_decided = 1500


class Model:
    """What the plots have to show after a history of resets, steps and figure resets."""

    def __init__(self):
        self.clear()
        self.done = None
        self.total = 0
        self.ep_k = 0

    def clear(self):
        self.steps = []  # (state, reference, reward, action)
        self.begun = []
        self.marks = []
        self.violations = []
        self.episodes = []  # (length, rewards)
        self.current = None

    def reset(self):
        if self.done is not None:
            self.marks.append((len(self.steps) * TAU, "violation" if self.done else "reset"))
        self.done = False
        if self.current is not None:
            self.episodes.append(self.current)
        self.current = [0, []]
        self.ep_k = 0

    def step(self, s, r, rew, a, done):
        self.steps.append((s, r, rew, a))
        self.ep_k += 1
        self.done = done
        if self.current is not None:
            self.current[0] = self.ep_k
            self.current[1].append(rew)
        if done:
            self.violations.append(len(self.steps))

    def window(self, shift, val):
        """Samples of the last W steps: step k is written at position (k + shift) % W."""
        out = {}
        for k, st in enumerate(self.steps):
            out[(k + shift) % W] = ((k + shift) * TAU, val(st))
        return sorted(out.values(), key=lambda p: p[0])


def is_nan(v):
    return isinstance(v, float) and v != v


def series(ck, w, stub, e, name):
    it = w.it
    names, refs = w.names(e)
    lim = w.limits(e)
    ps = it.getattr(e, "physical_system")
    sp = it.res(it.getattr(ps, "state_space"))
    low = dict(zip(names, norm(sp.attrs["low"], it)))
    high = dict(zip(names, norm(sp.attrs["high"], it)))
    space = it.res(it.getattr(e, "action_space"))
    kind = space.extname.rsplit(".", 1)[-1]
    n_act = {"Box": lambda: int(np.asarray(space.attrs["low"]).size), "MultiDiscrete": lambda: int(np.asarray(space.attrs["nvec"]).size)}.get(kind, lambda: 1)()
    todo = [("state %s" % q, lambda q=q: w.new("StatePlot", q)) for q in names]
    todo += [("action %d" % k, lambda k=k: w.new("ActionPlot", k)) for k in range(n_act)]
    todo += [("reward", lambda: w.new("RewardPlot")), ("episode length", lambda: w.new("EpisodeLengthPlot")), ("mean reward", lambda: w.new("MeanEpisodeRewardPlot")), ("violations", lambda: w.new("CumulativeConstraintViolationPlot"))]
    for h in HISTORIES:
        for label, make in todo:
            if label.startswith("state") and len(h) > 12 and label != "state %s" % refs[0] and label != "state omega" and ck.tier == "quick":
                continue
            con = "%s %s %s" % (name, label, h)
            with ck.guard("series", con):
                history(ck, w, stub, e, con, label, make(), h, names, refs, lim, low, high, n_act, kind)


def history(ck, w, stub, e, con, label, p, h, names, refs, lim, low, high, n_act, kind):
    it = w.it
    timed = has_attr(it, p, "set_width")
    if timed:
        m(it, p, "set_width", W)
    m(it, p, "set_env", e)
    mod = Model()
    axis = None
    n = 0
    for j, c in enumerate(h):
        if c == "R":
            m(it, p, "on_reset_begin")
            mod.reset()
            m(it, p, "on_reset_end", arr([0.0] * len(names)), arr([0.0] * len(names)))
        elif c in "st":
            n += 1
            s = arr([S("%s at %d" % (q, n), "real") for q in names])
            r = arr([S("%s* at %d" % (q, n), "real") for q in names])
            rew = S("reward at %d" % n, "real")
            a = arr([S("action %d at %d" % (k, n), "real") for k in range(n_act)])
            act = a[0] if kind == "Discrete" else a
            m(it, p, "on_step_begin", mod.ep_k, act)
            mod.step(list(s), list(r), rew, list(a), c == "t")
            m(it, p, "on_step_end", mod.ep_k, s, r, rew, c == "t")
        elif c == "C":
            m(it, p, "reset_data")
            mod.clear()
            axis = None
        elif c == "v":
            if axis is None:
                axis = it.call(stub["Axis"], [], {})
                m(it, p, "initialize", axis)
            m(it, p, "render")
            judge(ck, w, axis, con + " @%d" % j, label, mod, names, refs, lim, low, high)


def judge(ck, w, axis, con, label, mod, names, refs, lim, low, high):
    it = w.it
    lines = []
    for l in it.iterate(it.getattr(axis, "plots")):
        x, y = norm(it.getattr(l, "x"), it), norm(it.getattr(l, "y"), it)
        if len(x) != len(y):
            ck.violation("series", con, "a line has %d x and %d y values" % (len(x), len(y)))
            return
        pts = [(a, b) for a, b in zip(x, y) if not is_nan(b)]
        lines.append(pts)
    want = []
    if label.startswith("state"):
        q = label[6:]
        k = names.index(q)
        f = 1.0 if abs(lim[q] - high[q]) < 1e-15 else lim[q]
        want.append(mod.window(1, lambda st: tm.mul(st[0][k], f)))
        if q in refs:
            want.append(mod.window(1, lambda st: tm.mul(st[1][k], f)))
        hl = sorted(float(v) for v in norm(it.getattr(axis, "hlines"), it))
        exp = sorted([high[q] * f] + ([low[q] * f] if low[q] < 0 else []))
        ck.require("limits", con, len(hl) == len(exp) and all(close(a, b) for a, b in zip(hl, exp)), "horizontal lines at %s, limits %s" % (hl, exp))
    elif label.startswith("action"):
        k = int(label[7:])
        want.append(mod.window(0, lambda st: st[3][k]))
    elif label == "reward":
        want.append(mod.window(0, lambda st: st[2]))
    elif label == "episode length":
        want.append([(k, l) for k, (l, _) in enumerate(mod.episodes)])
    elif label == "mean reward":
        want.append([(k, tm.div(total(*r), len(r))) for k, (_, r) in enumerate(mod.episodes) if r])
    elif label == "violations":
        pts = [(0, 0)]
        for j, k in enumerate(mod.violations):
            pts += [(k - 1, j), (k, j + 1)]
        want.append(pts)
    if len(lines) != len(want):
        ck.violation("series", con, "%d lines, %d expected" % (len(lines), len(want)))
        return
    for j, (g, x) in enumerate(zip(lines, want)):
        if label.startswith(("state", "action", "reward")):
            g = sorted(g, key=lambda p: p[0])
        if label == "violations":  # the same steps may be drawn with fewer points
            last = int(max([p[0] for p in x] + [0]))
            g, x = steps(g, last), steps(x, last)
        cons = "%s line %d" % (con, j)
        if len(g) != len(x):
            ck.violation("series", cons, "%d samples, the history has %d" % (len(g), len(x)))
            continue
        if x:
            ck.eq("series", cons, [list(p) for p in g], [list(p) for p in x], it=it)
        else:
            ck.ok("series", cons)
    if label.startswith(("state", "action", "reward")):
        got = sorted((float(a), str(b)) for a, b in [tuple(v) for v in norm(it.getattr(axis, "vlines"), it)])
        exp = sorted((t, "red" if k == "violation" else "blue") for t, k in mod.marks)
        ck.require("markers", con, got == exp, "vertical lines %s, expected %s" % (got, exp))


def steps(pts, last):
    """Value of the drawn polyline at each step number up to the given one (the upper end of a vertical jump); after its end the line keeps its value."""
    out = []
    for k in range(last + 1):
        left = [p for p in pts if p[0] <= k]
        right = [p for p in pts if p[0] > k]
        if not left:
            continue
        v = left[-1][1]
        if left[-1][0] < k and right:
            (x0, y0), (x1, y1) = left[-1], right[0]
            v = y0 + (y1 - y0) * (k - x0) / (x1 - x0)
        out.append((k, v))
    return out


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def has_attr(it, o, name):
    try:
        it.getattr(o, name)
        return True
    except AbsRaise:
        return False


def scale(ck, w, stub):
    it = w.it
    for scaled in (True, False):
        e = w.env_of(Combo("Cont", "Current", "pmsm"), tau=TAU, scale_plots=scaled)
        names, refs = w.names(e)
        lim = w.limits(e)
        todo = [("state %s" % q, lambda q=q: w.new("StatePlot", q)) for q in names]
        todo += [("action 1", lambda: w.new("ActionPlot", 1)), ("reward", lambda: w.new("RewardPlot"))]
        for label, make in todo:
            con = "%s scale_plots=%s" % (label, scaled)
            with ck.guard("scale", con):
                p = make()
                m(it, p, "set_width", W)
                m(it, p, "set_env", e)
                axis = it.call(stub["Axis"], [], {})
                m(it, p, "initialize", axis)
                m(it, p, "render")
                first = [float(v) for v in norm(it.getattr(axis, "y_lim"), it)]
                m(it, p, "on_reset_begin")
                for k in range(6):
                    z = arr([0.1 * k - 0.3 + 0.01 * j for j in range(len(names))])
                    m(it, p, "on_step_begin", k, arr([0.2 * k - 0.7] * 3))
                    m(it, p, "on_step_end", k + 1, z, arr([2.0 * x for x in z]), 0.5 - k, False)
                    m(it, p, "render")
                lo, hi = [float(v) for v in norm(it.getattr(axis, "y_lim"), it)]
                ys = [y for l in it.iterate(it.getattr(axis, "plots")) for y in norm(it.getattr(l, "y"), it) if not is_nan(y)]
                if scaled:
                    ck.require("scale", con, lo <= min(ys) and hi >= max(ys) and hi - lo <= 2.5 * (max(ys) - min(ys)) + 0.25 * max(abs(min(ys)), abs(max(ys))), "axis range (%g, %g) for data in (%g, %g)" % (lo, hi, min(ys), max(ys)))
                else:
                    ck.require("scale", con, [lo, hi] == first, "axis range changes from %s to %s" % (first, [lo, hi]))
                x_lo, x_hi = [float(v) for v in norm(it.getattr(axis, "x_lim"), it)]
                ck.require("scale", con + " time", x_lo <= 3 * TAU + 1e-9 and x_hi >= 6 * TAU - 1e-9, "time axis (%g, %g) after 6 steps of %g" % (x_lo, x_hi, TAU))


def fixed_range(ck, w, stub):
    """Without scale_plots the axis shows the whole range of the plotted quantity and not much more."""
    it = w.it
    for name, combo in (("PMSM", Combo("Cont", "Current", "pmsm")), ("EESM finite", Combo("Finite", "Torque", "eesm")), ("Series finite", Combo("Finite", "Speed", "series")), ("Ext", Combo("Cont", "Torque", "extex"))):
        with ck.guard("scale", name + " fixed range"):
            e = w.env_of(combo, tau=TAU, scale_plots=False)
            names, _ = w.names(e)
            lim = w.limits(e)
            sp = it.res(it.getattr(it.getattr(e, "physical_system"), "state_space"))
            low, high = norm(sp.attrs["low"], it), norm(sp.attrs["high"], it)
            rr = [float(v) for v in norm(it.getattr(e, "reward_range"), it)]
            todo = []
            for k, q in enumerate(names):
                f = 1.0 if abs(lim[q] - high[k]) < 1e-15 else lim[q]
                todo.append(("state " + q, w.new("StatePlot", q), low[k] * f, high[k] * f))
            todo.append(("reward", w.new("RewardPlot"), rr[0], rr[1]))
            space = it.res(it.getattr(e, "action_space"))
            kind = space.extname.rsplit(".", 1)[-1]
            if kind == "Box":
                acts = list(zip(norm(space.attrs["low"], it), norm(space.attrs["high"], it)))
            elif kind == "MultiDiscrete":
                acts = [(0, int(n) - 1) for n in norm(space.attrs["nvec"], it)]
            else:
                acts = [(0, int(it.res(space.attrs["n"])) - 1)]
            for k, (a, b) in enumerate(acts):
                todo.append(("action %d" % k, w.new("ActionPlot", k), a, b))
            for label, p, a, b in todo:
                con = "%s %s fixed range" % (name, label)
                with ck.guard("scale", con):
                    m(it, p, "set_width", W)
                    m(it, p, "set_env", e)
                    axis = it.call(stub["Axis"], [], {})
                    m(it, p, "initialize", axis)
                    lo, hi = [float(v) for v in norm(it.getattr(axis, "y_lim"), it)]
                    ck.require("scale", con, lo <= a + 1e-9 * abs(a) and hi >= b - 1e-9 * abs(b) and hi - lo <= 3.0 * (b - a), "axis range (%g, %g), the quantity is in (%g, %g)" % (lo, hi, a, b))


def episode_axes(ck, w, stub):
    """The axes of the episode and step plots cover everything drawn as soon as there is a line to see (two samples)."""
    it = w.it
    e = w.env_of(Combo("Cont", "Current", "pmsm"), tau=TAU)
    names, _ = w.names(e)
    z = arr([0.0] * len(names))
    todo = [("episode length", "EpisodeLengthPlot"), ("mean reward", "MeanEpisodeRewardPlot"), ("violations", "CumulativeConstraintViolationPlot")]
    for label, cls in todo:
        for n, (rewards, h) in enumerate([((-3.0, 0.5, -1.0), "Rsssssssvtvtvtv"), ((0.25, -0.5), "RstvRssssssvRsvRsstvRv"), ((-1.0, -2.0, -3.0), "RsvRstvRsstvRssstvRvCRsvRssvRsssvRtvRv"), ((2.0, 3.0, 4.0), "RstRstRstRsstvRvsstvRv")]):
            con = "%s axes %d" % (label, n)
            with ck.guard("scale", con):
                p = w.new(cls)
                m(it, p, "set_env", e)
                axis = it.call(stub["Axis"], [], {})
                m(it, p, "initialize", axis)
                k = total_k = ep = 0
                for j, c in enumerate(h):
                    if c == "R":
                        m(it, p, "on_reset_begin")
                        m(it, p, "on_reset_end", z, z)
                        k = 0
                        ep += 1
                    elif c in "st":
                        k += 1
                        m(it, p, "on_step_begin", k - 1, arr([0.0, 0.0, 0.0]))
                        m(it, p, "on_step_end", k, z, z, rewards[(ep + k) % len(rewards)], c == "t")
                    elif c == "C":
                        m(it, p, "reset_data")
                        axis = it.call(stub["Axis"], [], {})
                        m(it, p, "initialize", axis)
                    else:
                        m(it, p, "render")
                        pts = [(float(a), float(b)) for l in it.iterate(it.getattr(axis, "plots")) for a, b in zip(norm(it.getattr(l, "x"), it), norm(it.getattr(l, "y"), it)) if not is_nan(b)]
                        if len(pts) < 2:
                            continue
                        for q, vals in (("x", [a for a, _ in pts]), ("y", [b for _, b in pts])):
                            lo, hi = [float(v) for v in norm(it.getattr(axis, q + "_lim"), it)]
                            ck.require("scale", "%s %s @%d" % (con, q, j), abs(lo) < 1e9 and abs(hi) < 1e9 and lo <= min(vals) + 1e-9 and hi >= max(vals) - 1e-9, "%s axis (%g, %g) for data in (%g, %g)" % (q, lo, hi, min(vals), max(vals)))


def dispatch(ck, w):
    it = w.it
    figures, drawn, log = [], [], []
    plotstub.pyplot(it, figures, drawn)
    LOG = Native("LOG", lambda i, a, k: log.append(tuple(a)))
    base = {}
    for kd in KINDS:
        base[kd] = it.load_text("gemspec.probe_%s" % kd, PROBE, BASE=ck.cls(it, kd), LOG=LOG).ns["Probe"]

    def dash(interval=1, **k):
        probes = [it.call(base[kd], ["%s %d" % (kd, j)], {}) for j in (1, 2) for kd in KINDS]
        d = w.new("MotorDashboard", additional_plots=tuple(probes), update_interval=interval, time_plot_width=W, **k)
        return d, ["%s %d" % (kd, j) for j in (1, 2) for kd in KINDS]

    with ck.guard("dispatch", "notifications"):
        del log[:]
        d, tags = dash()
        e = w.env_of(Combo("Cont", "Current", "pmsm"), visualization=(d,))
        count(ck, "dispatch", "set_env", log, tags, "set_env")
        ck.require("dispatch", "set_width", sorted(x[1:] for x in log if x[0] == "set_width") == sorted((t, W) for t in tags if t.startswith("TimePlot")), "widths: %s" % [x for x in log if x[0] == "set_width"])
        args = dict(on_reset_begin=(), on_reset_end=(arr([S("s")]), arr([S("r")])), on_step_begin=(7, arr([S("a")])), on_step_end=(8, arr([S("s2")]), arr([S("r2")]), S("rew"), True))
        for name, a in args.items():
            del log[:]
            m(it, d, name, *a)
            count(ck, "dispatch", name, log, tags, name)
            ck.require("dispatch", name + " only", all(x[0] in (name, "render", "initialize") for x in log), "other calls: %s" % sorted({x[0] for x in log}))
            for x in log:
                if x[0] == name:
                    ck.eq("dispatch", "%s arguments %s" % (name, x[1]), list(x[2:]), list(a), it=it)
    for interval in (1, 3):
        con = "interval %d" % interval
        with ck.guard("update", con):
            d, tags = dash(interval)
            e = w.env_of(Combo("Cont", "Current", "pmsm"), visualization=(d,))
            del log[:], figures[:]
            m(it, d, "render")
            count(ck, "update", con + " figures", log, tags, "initialize")
            axes = [x[2] for x in log if x[0] == "initialize"]
            ck.require("update", con + " axes", len({id(a) for a in axes}) == len(tags), "%d axes for %d plots" % (len({id(a) for a in axes}), len(tags)))
            m(it, d, "on_reset_begin")
            hits = []
            for k in range(1, 8):
                m(it, d, "on_step_begin", k - 1, None)
                m(it, d, "on_step_end", k, None, None, 0.0, False)
                del log[:]
                m(it, d, "render")
                n = {t: sum(1 for x in log if x[:2] == ("render", t)) for t in tags}
                if len(set(n.values())) != 1:
                    ck.violation("update", con + " equal", "rendered: %s" % n)
                hits.append(n[tags[0]])
                ck.require("update", con + " once", not any(x[0] == "initialize" for x in log), "the figures are made again")
            ck.require("update", con, hits == [1 if k % interval == 0 else 0 for k in range(1, 8)], "rendered after the steps: %s" % hits)
            del log[:], drawn[:]
            m(it, d, "force_render")
            count(ck, "update", con + " forced", log, tags, "render")
            ck.require("update", con + " drawn", len(drawn) >= 1, "nothing is drawn")
            del log[:]
            m(it, d, "reset_figures")
            count(ck, "update", con + " reset", log, tags, "reset_data")
            del log[:]
            m(it, d, "force_render")
            count(ck, "update", con + " new figures", log, tags, "initialize")
            count(ck, "update", con + " new figures rendered", log, tags, "render")
    for c, sel in ((Combo("Cont", "Current", "pmsm"), "all"), (Combo("Finite", "Current", "pmsm"), "all"), (Combo("Cont", "Torque", "extex"), "all"), (Combo("Finite", "Speed", "eesm"), "all"), (Combo("Cont", "Current", "pmsm"), ["torque", "omega"])):
        con = "%s %s" % (c.label, sel)
        with ck.guard("selection", con):
            names, _ = w.names(w.env_of(c))
            d = w.new("MotorDashboard", state_plots="all" if sel == "all" else list(sel), action_plots="all", reward_plot=True, time_plot_width=W)
            e = w.env_of(c, visualization=(d,))
            del figures[:]
            m(it, d, "render")
            sp = it.res(it.getattr(e, "action_space"))
            n_act = 1 if sp.extname.endswith(".Discrete") else int(np.asarray(sp.attrs.get("low", sp.attrs.get("nvec"))).size)
            shown = [str(it.getattr(a, "y_label")) for f in figures for a in it.iterate(it.getattr(f, "axes"))]
            table = it.res(it.getattr(ck.cls(it, "StatePlot"), "state_labels"))
            want = [table.get(q, q) for q in (names if sel == "all" else sel)] + ["Action %d" % k for k in range(n_act)] + ["reward"]
            ck.require("selection", con, sorted(shown) == sorted(want), "plots %s, selected %s" % (shown, want))
    with ck.guard("selection", "unknown state", must_return=False):
        d = w.new("MotorDashboard", state_plots=["no such state"])
        try:
            w.env_of(Combo("Cont", "Current", "pmsm"), visualization=(d,))
            ck.violation("selection", "unknown state", "accepted")
        except AbsRaise:
            ck.ok("selection", "unknown state")


def count(ck, rule, con, log, tags, name):
    n = {t: sum(1 for x in log if x[0] == name and x[1] == t) for t in tags}
    ck.require(rule, con, all(v == 1 for v in n.values()), "%s calls: %s" % (name, n))


UNITS = {"omega": "(1/s)", "torque": "Nm", "epsilon": "rad"}
NAMES = {"omega": r"\omega", "torque": "T", "epsilon": r"\epsilon"}


def labels(ck, w):
    it = w.it
    with ck.guard("labels", "state labels"):
        table = it.res(it.getattr(ck.cls(it, "StatePlot"), "state_labels"))
        ck.require("labels", "state labels", len(table) >= 10, "%d labels" % len(table))
        for q, l in table.items():
            body, _, unit = str(l).partition("/")
            plain = re.sub(r"\\mathrm|[{}$\s]", "", body)
            ck.require("labels", "name of %s" % q, plain == NAMES.get(q, q), "label %s" % l)
            ck.require("labels", "unit of %s" % q, unit == UNITS.get(q, "A" if q.startswith("i") else "V"), "label %s" % l)
    n = 0
    for pkg in ("gym_electric_motor", "gem_controllers"):
        for where, tree in modules(pkg):
            for node in ast.walk(tree):
                if isinstance(node, ast.Constant) and isinstance(node.value, str) and "$" in node.value and "\n" not in node.value:
                    n += 1
                    ck.require("labels", "formula %r in %s" % (node.value, where), formula(node.value), "unbalanced braces or dollar signs")
    ck.require("labels", "formulas found", n >= 10, "%d formulas" % n)


def formula(s):
    parts = re.split(r"(?<!\\)\$", s)
    if len(parts) % 2 == 0:
        return False
    for p in parts[1::2]:
        d = 0
        for ch in re.sub(r"\\[{}]", "", p):
            d += (ch == "{") - (ch == "}")
            if d < 0:
                return False
        if d:
            return False
    return True


CONSOLE = ("Rv", "RvsvsvtvRv", "RvssstRsvsv", "RssvRsvstvRvsv", "RsvsvsvRsstRsvRv", "RvsvRvstvRvsvsvsvR", "RtvRtvRssvRv", "RvsssvssvsvRsvv")


def numbers(text):
    return [float(x) for x in re.findall(r"-?\d+(?:\.\d+)?(?:e-?\d+)?", text)]


def after(text, word):
    """The first number behind a word."""
    g = re.search(r"(?i)%s\D*?(-?\d+(?:\.\d+)?)" % word, text)
    return float(g.group(1)) if g else None


def console(ck):
    """The console printer under all orders of resets, steps and renderings, with concrete values."""
    for verbose in (0, 1, 2):
        for freq in (1, 2):
            for h in CONSOLE:
                cons = "printer verbose %d frequency %d history %s" % (verbose, freq, h)
                with ck.guard("console", cons):
                    printer(ck, cons, verbose, freq, h)


def printer(ck, cons, verbose, freq, hist):
    from ..envstub import EnvRig

    rg = EnvRig(ck)
    it = rg.it
    it.load("gym_electric_motor.visualization")
    lim = [10.0, 20.0, 30.0, 40.0, 50.0]
    rg.system.attrs["_lim"] = arr(list(lim))
    p = it.call(ck.cls(it, "ConsolePrinter"), [], dict(verbose=verbose, update_freq=freq))
    e = rg.env()
    m(it, p, "set_env", e)
    k = cum = 0
    ended = None  # (steps, rewards, violated) of the episode ended by the last reset that is not displayed yet
    begun = done = False
    episode = None
    x = 0
    for j, c in enumerate(hist):
        where = "%s at %d" % (cons, j)
        x += 1
        state = [round(0.01 * ((x * 7 + i * 3) % 19), 2) for i in range(5)]
        ref = [round(-0.01 * ((x * 5 + i * 11) % 23), 2) for i in range(5)]
        if c == "R":
            m(it, p, "on_reset_begin")
            if begun:
                ended = (k, cum, done)
            else:
                ended = ended or ()
            begun, k, cum, done = True, 0, 0.0, False
            m(it, p, "on_reset_end", arr(state), arr(ref))
            last = (state, ref, None)
        elif c in "st":
            r = -0.5 * x
            m(it, p, "on_step_begin", k, 1.0)
            k, cum, done = k + 1, cum + r, c == "t"
            m(it, p, "on_step_end", k, arr(state), arr(ref), r, done)
            last = (state, ref, r)
        else:
            n0 = len(it.events)
            m(it, p, "render")
            out = [" ".join(str(a) for a in ev.args) for ev in it.events[n0:] if ev.kind == "print"]
            if verbose == 0:
                ck.require("console", where + " silent", not out, "prints %s" % out)
                continue
            want = (ended is not None) + (verbose == 2 and k % freq == 0)
            ck.require("console", where + " lines", len(out) == want, "%d outputs instead of %d: %s" % (len(out), want, out))
            if len(out) != want:
                ended = None
                continue
            if ended is not None:
                t = out[0]
                if ended:
                    ck.require("console", where + " steps", after(t, "steps") == ended[0], "an episode of %d steps is shown as %r" % (ended[0], t))
                    got = after(t, "reward")
                    ck.require("console", where + " sum", got is not None and abs(got - ended[1]) < 1e-3, "an episode with rewards of %g is shown as %r" % (ended[1], t))
                    ck.require("console", where + " reason", ("violation" in t.lower()) == ended[2], "an episode that ended by %s is shown as %r" % ("a violation" if ended[2] else "a reset", t))
                    no = after(t, "episode")
                    ck.require("console", where + " number", episode is None or no == episode + 1, "episode %s follows episode %s" % (no, episode))
                    episode = no
                ended = None
            if verbose == 2 and k % freq == 0:
                t = out[-1]
                ck.require("console", where + " step", after(t, "step") == k, "step %d is shown as %r" % (k, t))
                ns = numbers(t)
                for what, v in (("state", last[0]), ("reference", last[1])):
                    phys = [a * b for a, b in zip(v, lim)]
                    shown = any(all(abs(a - b) < 6e-4 for a, b in zip(phys, ns[o:])) for o in range(len(ns) - 4))
                    ck.require("console", "%s %s" % (where, what), shown, "physical values %s are shown as %r" % (phys, t))
                if last[2] is not None:
                    got = (after(t, "reward"), after(t, "cumulative reward"))
                    ck.require("console", where + " reward", None not in got and abs(got[0] - last[2]) < 1e-3 and abs(got[1] - cum) < 1e-3, "reward %g, cumulative %g are shown as %r" % (last[2], cum, t))
