"""Converters against the reference model of their documented topology."""
import numpy as np

from .. import terms as tm
from .. import convmodel as cm
from ..check import norm, same
from ..interp import arr
from ..rig import *

TAU = 1e-4


def width(kind):
    return cm.ref(kind).n_out


def cur(kind, tag=""):
    return [S("i%d%s" % (k, tag)) for k in range(width(kind))]


def ranges(ck, it, cv, rule, cons, u, assume=None):
    sp = it.getattr(cv, "voltages")
    lo, hi = norm(it.getattr(sp, "low"), it), norm(it.getattr(sp, "high"), it)
    un = norm(u, it)
    if not isinstance(un, list) or len(un) != len(lo):
        ck.violation(rule, cons, "%s output voltages for a space of %d" % (len(un) if isinstance(un, list) else un, len(lo)))
        return
    cond = tm.and_(*[tm.and_(tm.le(l, x), tm.le(x, h)) for l, x, h in zip(lo, un, hi)])
    ck.holds(rule, cons, cond, "output voltage leaves the declared space", assume)


def actions(kind):
    if isinstance(kind, str):
        return list(range(cm.ref(kind).n_act))
    import itertools

    full = list(itertools.product(*[actions(k) for k in kind]))
    step = max(1, len(full) // 12)
    return [list(x) for x in full[::step]]


def finite(ck, kind, til_on):
    cons = "finite %s%s" % (cm.label(kind), " interlocked" if til_on else "")
    acts = actions(kind)
    seqs = [(a, b) for a in acts for b in acts]
    if kind == "2Q" or ck.tier == "thorough" and isinstance(kind, str) and kind != "B6":
        seqs = [(a, b, c) for a in acts for b in acts for c in acts]
    it = ck.interp()
    til = S("til", ("range", 2e-6, 5e-5)) if til_on else 0.0
    cv = cm.make(ck, it, kind, tau=TAU, interlocking_time=til)
    for seq in seqs:
        c = "%s %s" % (cons, "->".join(str(a) for a in seq))
        with ck.guard("switching-table", c):
            m(it, cv, "reset")
            if kind != "1Q":
                cv = cm.make(ck, it, kind, tau=TAU, interlocking_time=til)
            rf = cm.ref(kind)
            t = S("t0", ("range", 0, 1))
            for n, a in enumerate(seq):
                locked = rf.set_action(a, til_on)
                times = it.iterate(m(it, cv, "set_action", list(a) if isinstance(a, list) else a, t))
                want = [t + til, t + TAU] if locked else [t + TAU]
                last = n == len(seq) - 1
                if last or n == 1:
                    ck.eq("switching-times", c + " step %d" % (n + 1), times, want, it=it)
                for j, e in enumerate(want):
                    i = cur(kind, "_%d_%d" % (n, j))
                    u = m(it, cv, "convert", list(i), e)
                    lk = locked and j == 0
                    if last:
                        q = "%s interval %d" % (c, j + 1)
                        ck.eq("switching-table", q, u, rf.u(i, lk), it=it)
                        ranges(ck, it, cv, "voltage-range", q, u)
                        isup = m(it, cv, "i_sup", list(i))
                        nonneg = [tm.le(0, x) for x, w in zip(i, mask_oneq(kind)) if w] or None
                        ck.eq("supply-power", q, isup, rf.isup(i, lk), it=it, assume=nonneg)
                t = t + TAU


def mask_oneq(kind):
    if isinstance(kind, str):
        return [kind == "1Q"] * width(kind)
    return [x for k in kind for x in mask_oneq(k)]


def invalid(ck, kind):
    it = ck.interp()
    cv = cm.make(ck, it, kind, tau=TAU)
    n = cm.ref(kind).n_act
    for bad in [-1, n, n + 5, 0.5]:
        cons = "finite %s action %s" % (kind, bad)
        try:
            m(it, cv, "set_action", bad, 0.0)
        except AbsRaise:
            ck.ok("invalid-action", cons)
            continue
        ck.violation("invalid-action", cons, "accepted although the action space is Discrete(%d)" % n)
    for good in range(n):
        with ck.guard("valid-action", "finite %s action %s" % (kind, good)):
            m(it, cv, "set_action", good, 0.0)
            m(it, cv, "convert", cur(kind), TAU)
            ck.ok("valid-action", "finite %s action %s" % (kind, good))
    sp = it.getattr(cv, "action_space")
    ck.eq("action-space", "finite %s" % kind, it.getattr(sp, "n"), n, it=it)


def continuous(ck, kind, til_on):
    cons = "continuous %s%s" % (cm.label(kind), " interlocked" if til_on else "")
    it = ck.interp()
    til = S("til", ("range", 2e-6, 5e-5)) if til_on else 0.0
    with ck.guard("averaged-output", cons):
        cv = cm.make(ck, it, kind, cont=True, tau=TAU, interlocking_time=til)
        sp = it.getattr(cv, "action_space")
        lo = [x for k in ([kind] if isinstance(kind, str) else kind) for x in ([-1] * 3 if k == "B6" else [-1] if k == "4Q" else [0])]
        ck.eq("action-space", cons, [it.getattr(sp, "low"), it.getattr(sp, "high")], [lo, [1] * len(lo)], it=it)
        t = S("t0", ("range", 0, 1))
        for n in range(2):
            i = cur(kind, "_%d" % n)
            a = [S("a%d_%d" % (k, n)) for k in range(len(lo))]
            times = it.iterate(m(it, cv, "set_action", arr(list(a)), t))
            ck.eq("switching-times", "%s step %d" % (cons, n + 1), times, [t + TAU], it=it)
            u = m(it, cv, "convert", list(i), t + TAU)
            want = cm.cont_u(kind, a, i, til, TAU)
            if til_on and not isinstance(kind, str):
                # composition: every part behaves as the same converter standing alone
                want, k = [], 0
                for p in kind:
                    one = cm.make(ck, it, p, cont=True, tau=TAU, interlocking_time=til)
                    w = 3 if p == "B6" else 1
                    m(it, one, "set_action", arr(a[k : k + w]), t)
                    want += norm(m(it, one, "convert", i[k : k + w], t + TAU), it)
                    k += w
            c = "%s step %d" % (cons, n + 1)
            if til_on and kind == "4Q":
                # recognise the recorded finding precisely so that any other deviation is still reported
                d = 0.5 * (cm.clip(a[0], -1, 1) + 1)
                same_i = cm.cont_u("2Q", [d], i, til, TAU)[0] - cm.cont_u("2Q", [1 - d], i, til, TAU)[0]
                if same(u, [same_i], None, it)[0] == "equal":
                    c = "continuous 4Q interlocked, second leg blanked with the unreversed current"
            ck.eq("averaged-output", c, u, want, it=it)
            ranges(ck, it, cv, "voltage-range", "%s step %d" % (cons, n + 1), u)
            if not til_on:
                isup = m(it, cv, "i_sup", list(i))
                nonneg = [tm.le(0, x) for x, w in zip(i, mask_oneq(kind)) if w] or None
                ck.eq("supply-power", "%s step %d" % (cons, n + 1), isup, cm.cont_isup(kind, a, i), it=it, assume=nonneg)
            t = t + TAU


def run(ck):
    ck.rule("switching-table", "for every sequence of discrete actions and every current, the output voltages in each switching sub-interval are those of the documented topology (half-bridge legs, blanking during interlocking)")
    ck.rule("switching-times", "the announced switching times are the end of the interlocking time (only when a conducting leg changes over) and the end of the step")
    ck.rule("averaged-output", "continuous converters output the clipped duty cycle reduced by the averaged interlocking voltage, clipped to the voltage range")
    ck.rule("voltage-range", "every output lies inside the declared voltage space for all actions and currents")
    ck.rule("supply-power", "without interlocking the supply current is the sum of the conducting legs' currents: power in equals power out of the switched legs")
    ck.rule("invalid-action", "discrete actions outside the action space are rejected")
    ck.rule("valid-action", "all discrete actions of the action space are accepted")
    ck.rule("action-space", "the action space has the documented size and range")
    multis = [["4Q", "2Q"], ["B6", "4Q"], ["1Q", "B6", "2Q"]]
    for kind in ["1Q", "2Q", "4Q", "B6"] + multis:
        for til_on in (False, True):
            finite(ck, kind, til_on)
            continuous(ck, kind, til_on)
        if isinstance(kind, str):
            invalid(ck, kind)
    # the no-converter element hands the supply voltage through
    it = ck.interp()
    c = ck.cls(it, "NoConverter")
    with ck.guard("switching-table", "NoConverter"):
        cv = it.call(c, [], dict(tau=TAU))
        i = [S("i0"), S("i1"), S("i2")]
        ck.eq("switching-table", "NoConverter", m(it, cv, "convert", list(i), 0.0), [1], it=it)
    ck.min_decided = 500
