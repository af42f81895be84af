"""Every reference generator produces the kind of trajectory it announces, with the configured parameters."""
import itertools
import math
import random

from .. import terms as tm
from ..check import norm
from ..envstub import *
from ..interp import arr
from ..rig import S, m
from .R01 import configured, system

TAU = 1.25e-3
L = 6


def wave_sinus(f, t, phase, w):
    return math.sin(2 * math.pi * (f * t + phase))


def wave_sawtooth(f, t, phase, w):
    return 2 * ((f * t + phase) % 1.0) - 1


def wave_triangle(f, t, phase, w):
    p = (f * t + phase) % 1.0
    return 2 * p / w - 1 if p < w else (1 + w - 2 * p) / (1 - w)


def rect(f, n, phase, w):
    """A rectangular wave, high for the part 1-w of its period, begun at a random point of the period."""
    x = [math.copysign(1.0, f * ((k * TAU) % (1 / f)) - w) for k in range(n)]
    s = int(1 / f / TAU * phase) % n
    return x[-s:] + x[:-s] if s else x


#: class: (waveform, number of random numbers of a sub-episode)
WAVES = {
    "SinusoidalReferenceGenerator": (wave_sinus, 4),
    "SawtoothReferenceGenerator": (wave_sawtooth, 4),
    "TriangularReferenceGenerator": (wave_triangle, 5),
    "StepReferenceGenerator": (None, 5),
}
PROCESSES = {"WienerProcessReferenceGenerator": "std_normal", "LaplaceProcessReferenceGenerator": "std_laplace"}


def clip(x, lo, hi):
    return min(max(x, lo), hi)


def draws(v, kinds=("u01",)):
    return [t for t in tm.subterms(v) if t.op == "fn" and t.args[0] in kinds] if isinstance(v, tm.T) else []


def model(name, u, par, rng, n):
    """The documented trajectory of a sub-episode for the drawn numbers u (amplitude, frequency, offset, phase, shape)."""
    lo, hi = rng
    uni = lambda r, x: r[0] + (r[1] - r[0]) * x if isinstance(r, tuple) else float(r)
    half = (hi - lo) / 2
    cut = lambda r, a, b: (clip(r[0], a, b), clip(r[1], a, b)) if isinstance(r, tuple) else clip(r, a, b)
    A = uni(cut(par.get("amplitude_range") or (0.0, math.inf), 0.0, half), u[0])
    f = uni(par.get("frequency_range", (1, 10)), u[1])
    off = cut(par.get("offset_range") or (-math.inf, math.inf), lo, hi)
    O = uni(cut(off, lo + A, hi - A), u[2])
    w = u[4] if len(u) > 4 else 1.0
    if name == "StepReferenceGenerator":
        xs = rect(f, n, u[3], w)
    else:
        xs = [WAVES[name][0](f, k * TAU, u[3], w) for k in range(n)]
    return [clip(O + A * x, lo, hi) for x in xs]


def values(rg, g, n, initial=None):
    """The references of an episode: what reset announces and what the following steps announce."""
    it = rg.it
    st = arr([0.0] * len(rg.names))
    r = it.iterate(m(it, g, "reset", st, initial) if initial is not None else m(it, g, "reset", st))
    out = [it.iterate(r[1])[0]]
    for _ in range(n - 1):
        m(it, g, "get_reference", st)
        out.append(it.iterate(m(it, g, "get_reference_observation", st))[0])
    return [norm(v, it) for v in out]


def sampled(vals, fixed, rnd):
    memo, env = dict(fixed), {}
    return [float(tm.evaluate(v, env, rnd, memo)) if isinstance(v, tm.T) else float(v) for v in vals]


def near(a, b):
    return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))


def make(ck, rg, name, bounds, kw):
    it = rg.it
    system(rg, bounds, 0.7)
    rg.system.attrs["_tau"] = TAU
    g = it.call(ck.cls(it, name), [], dict(reference_state="i", episode_lengths=L, **kw))
    m(it, g, "set_modules", rg.system)
    if it.res(it.getattr(rg.system, "tau")) != TAU:
        raise Unsupported("the stub's sampling time is not in force")
    return g


def run(ck):
    ck.rule("waveform", "the references of a sub-episode are the announced waveform of the drawn amplitude, frequency, offset and phase, sampled in steps of tau and shifted into the announced range")
    ck.rule("fresh", "every sub-episode draws its own parameters")
    ck.rule("process", "the references of a process continue the previous one with one independent increment per step, of a deviation drawn logarithmically from the configured range, and stop at the announced range")
    ck.rule("length", "the length of a sub-episode is drawn from the configured lengths")
    waves(ck)
    processes(ck)
    lengths(ck)
    ck.min_decided = 150


def waves(ck):
    sets = (
        {},
        dict(amplitude_range=(0.1, 0.3), offset_range=(-0.2, 0.2)),
        dict(amplitude_range=(0.5, 9.0), offset_range=(-9.0, 0.1), frequency_range=(20, 300)),
        dict(amplitude_range=(0.2, 0.25), offset_range=(0.3, 0.4), frequency_range=(100, 150)),
        dict(amplitude_range=(2.0, 3.0), offset_range=(0.6, 0.7), frequency_range=(50, 60)),
    )
    for name in WAVES:
        for margin, bounds in ((0.6, (-1.0, 1.0)), (None, (-1.0, 1.0)), ((0.3, 0.8), (-1.0, 1.0)), (1, (0.0, 1.0)), ((0.9, 0.2), (-0.5, 2.0))):
            want = configured(margin, bounds[0], bounds[1], 0.7)
            for j, par in enumerate(sets):
                cons = "%s range %g to %g parameters %d" % (name, want[0], want[1], j)
                with ck.guard("waveform", cons):
                    rg = EnvRig(ck)
                    g = make(ck, rg, name, bounds, dict(par, **({} if margin is None else dict(limit_margin=margin))))
                    seen = set()
                    for ep in range(2):
                        vals = values(rg, g, 2 * L)
                        for part in range(2):
                            sub = vals[part * L : part * L + L]
                            where = "%s sub-episode %d" % (cons, 2 * ep + part + 1)
                            us = []
                            for v in sub:
                                us += [u for u in draws(v) if u not in us]
                            ck.require("fresh", where, not seen & set(us), "uses random numbers of an earlier sub-episode")
                            seen |= set(us)
                            fits(ck, name, where, sub, us, par, want)


def fits(ck, name, where, sub, us, par, want):
    need = WAVES[name][1]
    rnd = random.Random(7)
    samples = []
    for _ in range(12 if ck.tier == "quick" else 40):
        x = {u: rnd.random() for u in us}
        try:
            samples.append((x, sampled(sub, x, rnd)))
        except tm.Undefined as e:
            return ck.undecided("waveform", where, "not evaluated: %s" % e)
    if len(us) > need:
        return ck.violation("waveform", where, "%d random numbers determine the references of the sub-episode, not %d" % (len(us), need))
    # a number that does not influence the values (an amplitude without a range, say) may have vanished
    pad = list(us) + [None] * (need - len(us))
    worst = None
    for roles in dict.fromkeys(itertools.permutations(pad)):
        bad = None
        for x, got in samples:
            u = [x.get(r, 0.5) for r in roles]
            exp = model(name, u, par, want, L)
            bad = next(((k, got[k], exp[k]) for k in range(L) if not near(got[k], exp[k])), None)
            if bad:
                break
        if bad is None:
            return ck.ok("waveform", where)
        worst = worst or bad
    ck.violation("waveform", where, "reference %d is %.6g, the documented waveform has %.6g (and no other assignment of the random numbers fits)" % (worst[0], worst[1], worst[2]))


def processes(ck):
    for name, kind in PROCESSES.items():
        for margin, bounds in ((0.6, (-1.0, 1.0)), (None, (-1.0, 1.0)), ((0.3, 0.8), (-1.0, 1.0)), (1, (0.0, 1.0))):
            want = configured(margin, bounds[0], bounds[1], 0.7)
            for par in ({}, dict(sigma_range=(1e-2, 3.0))) + ((dict(initial_range=(0.1, 0.2)),) if "Wiener" in name else ()):
                for given in (None, 0.05):
                    cons = "%s range %g to %g %s initial %s" % (name, want[0], want[1], sorted(par.items()), given)
                    with ck.guard("process", cons):
                        rg = EnvRig(ck)
                        g = make(ck, rg, name, bounds, dict(par, **({} if margin is None else dict(limit_margin=margin))))
                        seen = set()
                        for ep in range(2):
                            vals = values(rg, g, 2 * L, None if given is None else arr([given if n == "i" else 0.0 for n in rg.names]))
                            old = set()
                            for part in range(2):
                                sub = vals[part * L : part * L + L]
                                where = "%s sub-episode %d" % (cons, 2 * ep + part + 1)
                                new = set()
                                for v in sub:
                                    new |= set(draws(v, ("u01", kind)))
                                new -= old
                                ck.require("fresh", where, not seen & new, "uses random numbers of an earlier episode")
                                walk(ck, name, kind, where, vals[part * L - 1] if part else None, sub, new, old, par, want, given)
                                old |= new
                            seen |= old


def walk(ck, name, kind, where, before, sub, new, old, par, want, given):
    rnd = random.Random(3)
    us, zs = [t for t in new if t.args[0] == "u01"], [t for t in new if t.args[0] == kind]
    first = before is None
    n_u = 1 + (first and "Wiener" in name and given is None)
    ck.require("process", where + " draws", len(us) <= n_u and len(zs) == L, "%d uniform and %d increments are drawn for %d steps" % (len(us), len(zs), L))
    if len(us) > n_u or len(zs) != L:
        return
    s0, s1 = par.get("sigma_range", (1e-3, 1e-1))
    i0, i1 = par.get("initial_range", want)
    # the increment of a step is the one that appears with it
    order, known = [], set()
    for v in sub:
        z = [t for t in draws(v, (kind,)) if t in zs and t not in known]
        known |= set(z)
        order.append(z)
    ok = all(len(z) == 1 for z in order)
    ck.require("process", where + " increments", ok, "increments of the steps: %s" % [len(z) for z in order])
    if not ok:
        return
    order = [z[0] for z in order]
    samples = []
    for j in range(16 if ck.tier == "quick" else 60):
        x = {t: rnd.random() if t.args[0] == "u01" else rnd.gauss(0, 1) * 4 ** (j % 4 - 1) for t in sorted(new | old, key=lambda t: str(t))}
        try:
            samples.append((x, sampled(([before] if before is not None else []) + sub, x, rnd)))
        except tm.Undefined as e:
            return ck.undecided("process", where, "not evaluated: %s" % e)
    pad = us + [None] * (n_u - len(us))
    bad = None
    for roles in dict.fromkeys(itertools.permutations(pad)):
        bad = None
        for x, got in samples:
            sigma = 10 ** (math.log10(s0) + (math.log10(s1) - math.log10(s0)) * x.get(roles[0], 0.5))
            if not first:
                v, got = got[0], got[1:]
            elif given is not None:
                v = given
            elif n_u == 2:
                v = i0 + (i1 - i0) * x.get(roles[1], 0.5)
            else:
                v = 0.0
            for k in range(L):
                v = clip(v + sigma * x[order[k]], *want)
                if not near(v, got[k]):
                    bad = (k, got[k], v)
                    break
            if bad:
                break
        if bad is None:
            return ck.ok("process", where)
    ck.violation("process", where, "reference %d is %.6g, the documented process has %.6g" % bad)


def lengths(ck):
    """Lengths given as a pair: the number of steps between two parameter draws lies between both and covers them."""
    src = '''
from gym_electric_motor.reference_generators import SubepisodedReferenceGenerator

class Lengths(SubepisodedReferenceGenerator):
    """Notes the length of every sub episode; its trajectories are long enough for all."""
    seen = ()
    def _reset_reference(self):
        self.seen = self.seen + (self._current_episode_length,)
        self._reference = np.zeros(1000)
'''
    for want in ((3, 9), (500, 2000), 7):
        cons = "episode lengths %s" % (want,)
        with ck.guard("length", cons):
            rg = EnvRig(ck)
            it = rg.it
            it.load_text("gemspec.lengths", "import numpy as np\n" + src)
            g = it.call(it.load("gemspec.lengths").ns["Lengths"], [], dict(reference_state="i", episode_lengths=want))
            system(rg, (-1.0, 1.0), 0.7)
            m(it, g, "set_modules", rg.system)
            for ep in range(2):
                m(it, g, "reset", arr([0.0] * len(rg.names)))
            got = norm(it.getattr(g, "seen"), it)
            ck.require("length", cons + " one per episode", len(got) == 2, "%d sub-episodes begun by two resets" % len(got))
            for k, n in enumerate(got):
                where = "%s draw %d" % (cons, k + 1)
                if isinstance(want, int):
                    ck.eq("length", where, n, want, it=it)
                    continue
                us = draws(n)
                if len(us) != 1:
                    ck.violation("length", where, "%d random numbers determine the length" % len(us))
                    continue
                rnd = random.Random(1)
                top = [sampled([n], {us[0]: x}, rnd)[0] for x in (0.0, 0.25, 0.5, 0.75, 1 - 1e-9)]
                exp = [int(want[0] + (want[1] - want[0]) * x) for x in (0.0, 0.25, 0.5, 0.75, 1 - 1e-9)]
                ck.require("length", where, all(abs(a - b) <= 1 and want[0] <= a <= want[1] for a, b in zip(top, exp)), "lengths %s for random numbers from 0 to 1, configured %s" % (top, want))
            if not isinstance(want, int):
                ck.require("length", cons + " independent", len(set(draws(got[0]) + draws(got[-1]))) == 2, "both episodes use the same random number")
