"""Running an environment with a controller: episode handling of control_environment and plotting without side effects."""
import itertools

from .. import terms as tm
from ..check import norm
from ..corpus import *
from .. import plotstub
from ..gcrig import *
from .G03 import CURR

LOOP = '''
class Env:
    """Environment whose episodes end after the given steps; remembers every call."""
    def __init__(self, log, ends, fresh):
        self.log = log
        self.ends = ends
        self.fresh = fresh
        self.k = 0
        self.unwrapped = self
        self.visualizations = []
    def reset(self, seed=None, options=None):
        o = self.fresh("reset")
        self.log.append(("env.reset", o))
        return o, {}
    def step(self, action):
        self.k += 1
        o = self.fresh("step")
        self.log.append(("env.step", action, o))
        end = self.ends.get(self.k)
        return o, 0.0, end == "terminated", end == "truncated", {}
    def render(self):
        self.log.append(("env.render",))


class Diagram:
    def __init__(self, log):
        self.log = log
    def open(self):
        self.log.append(("open",))
    def close(self):
        self.log.append(("close",))


class Probe(GemController):
    """Controller that remembers every call."""
    def __init__(self, log, answer, diagram):
        super().__init__()
        self.log = log
        self.answer = answer
        self.block_diagram = diagram
    def control(self, state, reference):
        a = self.answer()
        self.log.append(("control", state, reference, a))
        return a
    def reset(self):
        self.log.append(("control.reset",))
'''


def run(ck):
    ck.rule("loop", "control_environment performs n_steps steps; environment and controller are reset together at the start and after every episode end (terminated, truncated, maximum length)")
    ck.rule("observation", "every action is computed from the observation the environment returned last, and is the action the environment receives")
    ck.rule("render", "the environment is rendered once per step if and only if requested")
    ck.rule("diagram", "an existing block diagram is opened before and closed after the run")
    ck.rule("plotting", "plotting the references changes no action; the plotted values are those the cascade uses")
    ck.rule("no-plotting", "without plot_references no plot of the environment is changed")
    ck.rule("safety", "the current set points stay within (1 - current_safety_margin) of the limits for the margin given to make")
    w = GcWorld(ck)
    it = w.it
    ns = it.load_text("gemspec.loop", LOOP, GemController=w.GC).ns
    loop(ck, w, ns)
    plots(ck, w)
    for f in ("control_environment", "make"):
        ck.method(it, w.GC, f)
    ck.min_decided = 250


def scenario(w, ns, ends, n, length=None, render=None, diagram=True):
    it = w.it
    count = itertools.count()

    def fresh(it_, args, kwargs):
        k = next(count)
        return (arr([S("state %d.%d" % (k, j), "real") for j in range(2)]), arr([S("reference %d" % k, "real")]))

    def answer(it_, args, kwargs):
        return arr([S("action %d" % next(count), "real")])

    log = []
    env = it.call(ns["Env"], [log, dict(ends), Native("fresh", fresh)], {})
    dia = it.call(ns["Diagram"], [log], {}) if diagram else None
    ctl = it.call(ns["Probe"], [log, Native("answer", answer), dia], {})
    kw = {}
    if length is not None:
        kw["max_episode_length"] = length
    if render is not None:
        kw["render_env"] = render
    m(it, ctl, "control_environment", env, n, **kw)
    return log


def loop(ck, w, ns):
    it = w.it
    for n in (0, 1, 5):
        for length in (None, 1, 2, 3):
            for bits in range(2 ** n):
                for kind in ("terminated", "truncated"):
                    ends = {k + 1: kind for k in range(n) if bits >> k & 1}
                    if kind == "truncated" and not ends:
                        continue
                    con = "steps=%d length=%s %s at %s" % (n, length, kind, sorted(ends))
                    with ck.guard("loop", con):
                        log = scenario(w, ns, ends, n, length, render=None if bits % 3 == 0 else bool(bits % 3 - 1), diagram=bits % 2 == 0)
                        log = list(it.iterate(log)) if not isinstance(log, list) else log
                        judge(ck, it, con, log, n, length, ends, None if bits % 3 == 0 else bool(bits % 3 - 1), bits % 2 == 0)


def judge(ck, it, con, log, n, length, ends, render, diagram):
    names = [e[0] for e in log]
    steps = [k for k, x in enumerate(names) if x == "env.step"]
    ck.require("loop", con + " steps", len(steps) == n, "%d steps for n_steps=%d" % (len(steps), n))
    # calls before the first step, between steps, after the last step
    cuts = [-1] + steps + [len(names)]
    age, bad = 0, None
    for k in range(len(cuts) - 1):
        part = names[cuts[k] + 1:cuts[k + 1]]
        if k > 0:
            age += 1
        last = k == len(cuts) - 2
        over = k == 0 or k in ends or (length is not None and age >= length)
        if over:
            age = 0
        got = (part.count("env.reset"), part.count("control.reset"))
        want = [(1, 1)] if over else [(0, 0)]
        if last and over and k > 0:
            want.append((0, 0))
        if got not in want:
            bad = bad or "after %d steps the environment is reset %d and the controller %d times, the episode %s" % (k, got[0], got[1], "starts or ended" if over else "goes on")
        if "control.reset" in part and "control" in part and part.index("control") < max(i for i, x in enumerate(part) if x == "control.reset"):
            bad = bad or "the controller is reset between computing and applying an action"
        if not last and part.count("control") != 1:
            bad = bad or "%d actions are computed for step %d" % (part.count("control"), k + 1)
    ck.require("loop", con, bad is None, bad or "")
    cur, act, wrong = None, None, None
    for e in log:
        if e[0] == "env.reset":
            cur = e[1]
        elif e[0] == "control":
            if cur is None or norm([e[1], e[2]], it) != norm(list(cur), it):
                wrong = wrong or "an action is computed from another than the last observation"
            act = e[3]
        elif e[0] == "env.step":
            if act is None or norm(e[1], it) != norm(act, it):
                wrong = wrong or "the environment receives another than the computed action"
            cur = e[2]
    ck.require("observation", con, wrong is None, wrong or "")
    ck.require("render", con, names.count("env.render") == (n if render else 0), "%d renderings in %d steps with render_env=%s" % (names.count("env.render"), n, render))
    if diagram:
        first = min([k for k, x in enumerate(names) if x in ("control", "env.step")] + [len(names)])
        end = max([k for k, x in enumerate(names) if x in ("control", "env.step", "env.reset")] + [-1])
        ok = names.count("open") == 1 and names.count("close") == 1 and names.index("open") < first and names.index("close") > end
        ck.require("diagram", con, ok, "calls: %s" % names)


def plots(ck, w):
    it = w.it
    axis = plotstub.load(it)["Axis"]
    for c in combos(acts=("Cont",)):
        with ck.guard("plotting", c.label):
            names, _ = w.names(w.env_of(c))
            margin = 0.35

            def build(**k):
                shown = [w.new("StatePlot", q) for q in names]
                d = w.new("MotorDashboard", additional_plots=tuple(shown), time_plot_width=8)
                e = w.env_of(c, visualization=(d,))
                ctl = w.make(e, c, current_safety_margin=margin, **k)
                axes = [it.call(axis, [], {}) for p in shown]
                for p, a in zip(shown, axes):
                    m(it, p, "initialize", a)
                return e, dict(zip(names, shown)), ctl, dict(zip(names, axes))

            def lines(p, a):
                """The data of the state line and of the reference line (None without one) a plot draws."""
                m(it, p, "render")
                ys = [norm(it.getattr(x, "y"), it) for x in it.iterate(it.getattr(a, "plots"))]
                return ys[0], ys[1] if len(ys) > 1 else None

            def drive(e, shown, ctl):
                out, seen = [], []
                for k in (1, 2):
                    del it.events[:]
                    out.append(norm(m(it, ctl, "control", w.state(e, "s%d" % k), w.reference(e, "r%d" % k)), it))
                    seen.append(handed(w, ctl, c.motor))
                    z = arr([0.0] * len(names))
                    for p in shown.values():
                        m(it, p, "on_step_begin", k, None)
                        m(it, p, "on_step_end", k, z, z, 0.0, False)
                return out, seen

            it.log_enter = True
            e, shown, ctl, _ = build(should_plot=False)
            plain, _ = drive(e, shown, ctl)
            e, shown, ctl, axes = build(should_plot=True, plot_references=True)
            del it.events[:]
            drawn = norm(m(it, ctl, "control", w.state(e, "s1"), w.reference(e, "r1")), it)
            ck.eq("plotting", c.label + " actions", drawn, plain[0], it=it)
            used = handed(w, ctl, c.motor)
            used.update({q: None for q in w.names(e)[1] if q not in used})
            ck.require("plotting", c.label + " cascade", len(used) >= {"Current": 1, "Torque": 2, "Speed": 3}[c.task], "references of %s" % sorted(used))
            for q, p in shown.items():
                data = lines(p, axes[q])[1]
                if used.get(q) is not None:
                    vals = [y for y in data or [] if not (isinstance(y, float) and y != y)]
                    ck.require("plotting", "%s %s line" % (c.label, q), len(vals) == 1, "the plot shows %d reference values after one control step" % len(vals))
                    if len(vals) == 1:
                        ck.eq("plotting", "%s %s" % (c.label, q), vals[0], used[q], it=it)
                elif q not in used:
                    ck.require("plotting", "%s %s not referenced" % (c.label, q), data is None, "a reference is plotted for a state without reference")
            more = norm(m(it, ctl, "control", w.state(e, "s2"), w.reference(e, "r2")), it)
            ck.eq("plotting", c.label + " next actions", more, plain[1], it=it)
            # limits of the set points shown in the plots and applied
            lim = w.limits(e)
            _, torque, _ = w.parts(ctl)
            if torque is not None:
                mx = norm(it.getattr(ctl, "controller") and it.getattr(it.getattr(ctl, "controller"), "maximum_reference"), it)
                for q, r in mx.items():
                    ck.require("safety", "%s %s" % (c.label, q), close(r[1], (1 - margin) * lim[q]), "maximum reference %s with margin %g at limit %g" % (r, margin, lim[q]))
                    ys = sorted(norm(it.getattr(axes[q], "hlines"), it))
                    ck.require("plotting", "%s %s maximum" % (c.label, q), all(any(close(y, v) for y in ys) for v in r), "lines at %s for the reference range %s" % (ys, r))
            e, shown, ctl, axes = build(should_plot=True, plot_references=False)
            out = norm(m(it, ctl, "control", w.state(e, "s1"), w.reference(e, "r1")), it)
            ck.eq("no-plotting", c.label + " actions", out, plain[0], it=it)
            for q, p in shown.items():
                data = lines(p, axes[q])[1]
                own = q in w.names(e)[1]
                ck.require("no-plotting", "%s %s" % (c.label, q), (data is not None) == own and all(isinstance(y, float) and y != y for y in data or []), "the plot shows a reference although plot_references is False")
            it.log_enter = False


def close(a, b):
    return abs(float(a) - float(b)) <= 1e-9 * max(1.0, abs(float(b)))


def handed(w, ctl, mo):
    """state name -> reference handed to the inner controllers in the last control call (from the recorded calls)."""
    it = w.it
    speed, torque, cur = w.parts(ctl)
    names = CURR[mo]
    out = {}
    for ev in it.events:
        if ev.kind != "enter" or len(ev.args) < 3:
            continue
        last = str(ev.name).rsplit(".", 1)[-1]
        if torque is not None and ev.obj is cur and last in ("current_control", "control"):
            out.update(zip(names, norm(ev.args[2], it)))
        if speed is not None and ev.obj is torque and last == "control":
            v = norm(ev.args[2], it)
            out["torque"] = v[0] if isinstance(v, list) else v
    return out
