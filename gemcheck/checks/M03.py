"""Frame transformations."""
import numpy as np

from .. import terms as tm
from ..check import norm
from ..interp import arr
from ..rig import *

ABC = [S("a"), S("b"), S("c")]
AB = [S("alpha"), S("beta")]
DQ = [S("d"), S("q")]
EPS = S("eps", "angle")
BAL = [S("a"), S("b"), -S("a") - S("b")]


def scalar_array(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def run(ck):
    ck.rule("transformation", "each frame transformation equals the documented amplitude-invariant matrix (value terms, all quantities and angles)")
    ck.rule("inverse", "forward and backward transformation compose to the identity on balanced quantities")
    ck.rule("amplitude", "squared amplitude is kept between stationary and rotating frame, and a balanced sine of amplitude A maps to a vector of length A")
    ck.rule("inputs-kept", "the arrays passed in (quantities and angles, also normalised ones) hold the same values afterwards")
    it = ck.interp()
    tp = ck.cls(it, "ThreePhaseMotor")
    for n in ("t_23", "t_32", "q", "q_inv", "q_me", "q_inv_me"):
        ck.method(it, tp, n)
    for name in [n for n in MOTORS if MOTORS[n]["system"] != "DcMotorSystem"]:
        p = S("p", "pos")
        with ck.guard("transformation", name):
            mo = make_motor(it, name)
            t = lambda f, *a: norm(m(it, mo, f, *a), it)
            ck.eq("transformation", name + ".t_23", t("t_23", arr(ABC)), clark(*ABC))
            ck.eq("transformation", name + ".t_32", t("t_32", arr(AB)), clark_inv(*AB))
            ck.eq("transformation", name + ".q", t("q", arr(DQ), EPS), rot(*DQ, EPS))
            ck.eq("transformation", name + ".q_inv", t("q_inv", arr(AB), EPS), park(*AB, EPS))
            ck.eq("transformation", name + ".q_me", t("q_me", arr(DQ), EPS), rot(*DQ, p * EPS))
            ck.eq("transformation", name + ".q_inv_me", t("q_inv_me", arr(AB), EPS), park(*AB, p * EPS))
            ck.eq("inverse", name + ".t_32 o t_23", t("t_32", m(it, mo, "t_23", arr(BAL))), BAL)
            ck.eq("inverse", name + ".t_23 o t_32", t("t_23", m(it, mo, "t_32", arr(AB))), AB)
            ck.eq("inverse", name + ".q o q_inv", t("q", m(it, mo, "q_inv", arr(AB), EPS), EPS), AB)
            ck.eq("inverse", name + ".q_me o q_inv_me", t("q_me", m(it, mo, "q_inv_me", arr(AB), EPS), EPS), AB)
            A, ph = S("A", "pos"), S("ph", "angle")
            sine = [A * tm.fn("cos", ph - k * 2 * PI / 3) for k in range(3)]
            v = t("t_23", arr(sine))
            ck.eq("amplitude", name + ".t_23 sine", v, [A * tm.fn("cos", ph), A * tm.fn("sin", ph)])
            v = t("q", arr(DQ), EPS)
            ck.eq("amplitude", name + ".q", v[0] * v[0] + v[1] * v[1], DQ[0] * DQ[0] + DQ[1] * DQ[1])
            for f, vals in (("t_23", ABC), ("t_32", AB)):
                a = arr(vals)
                m(it, mo, f, a)
                ck.eq("inputs-kept", "%s.%s" % (name, f), a, vals)
            for f in ("q", "q_inv", "q_me", "q_inv_me"):
                a, e = arr(AB), scalar_array(EPS)
                m(it, mo, f, a, e)
                ck.eq("inputs-kept", "%s.%s" % (name, f), [a, e], [AB, EPS])
    for name in [n for n in MOTORS if MOTORS[n]["system"] != "DcMotorSystem"]:
        it = ck.interp()
        sysn = MOTORS[name]["system"]
        with ck.guard("transformation", "%s(%s)" % (sysn, name)):
            rg = Rig(it, name)
            s = rg.sys
            cases = [
                ("abc_to_alphabeta_space", ABC, False, clark(*ABC)),
                ("alphabeta_to_abc_space", AB, False, clark_inv(*AB)),
                ("abc_to_dq_space", ABC, True, lambda e: abc_dq(ABC, e)),
                ("dq_to_abc_space", DQ, True, lambda e: dq_abc(DQ, e)),
                ("alphabeta_to_dq_space", AB, True, lambda e: park(*AB, e)),
                ("dq_to_alphabeta_space", DQ, True, lambda e: rot(*DQ, e)),
            ]
            for f, vals, ang, want in cases:
                ck.method(it, rg.cls, f)
                cons = "%s.%s" % (sysn, f)
                if not ang:
                    a = arr(vals)
                    ck.eq("transformation", cons, m(it, s, f, a), want, it=it)
                    ck.eq("inputs-kept", cons, a, vals)
                    continue
                for form, kw, e in (("", {}, EPS), (" normalised", dict(normed_epsilon=True), EPS * PI)):
                    with ck.guard("transformation", cons + form):
                        a = arr(vals)
                        ck.eq("transformation", cons + form, m(it, s, f, a, EPS, **kw), want(e), it=it)
                        ck.eq("inputs-kept", cons + form, a, vals)
                        ea = scalar_array(EPS)
                        m(it, s, f, arr(vals), ea, **kw)
                        ck.eq("inputs-kept", cons + form + " angle array", ea, EPS)
    ck.min_decided = 100
