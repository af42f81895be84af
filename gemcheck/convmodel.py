"""Reference model of the documented converter topologies (switching tables, interlocking, clipping)."""
from . import terms as tm
from .rig import *

B6_BITS = [[(a >> (2 - k)) & 1 for k in range(3)] for a in range(8)]


def clip(x, lo, hi):
    return tm.minimum(tm.maximum(x, lo), hi)


def leg(state, i):
    """Output of one half bridge: 1 upper transistor, 2 lower transistor, 0 both off (free-wheeling diodes)."""
    if state == 1:
        return 1
    if state == 2:
        return 0
    return tm.ite(tm.lt(i, 0), 1, 0)


def leg_isup(state, i):
    if state == 1:
        return i
    if state == 2:
        return 0
    return tm.ite(tm.lt(i, 0), i, 0)


class RefOneQ:
    n_out, n_act, n_leg = 1, 2, 1

    def __init__(self):
        self.reset()

    def reset(self):
        self.a = 0

    def set_action(self, a, til):
        self.a = a
        return False

    def u(self, i, locking):
        return [tm.ite(tm.lt(i[0], 0), 1, self.a)]

    def isup(self, i, locking=False):
        return i[0] if self.a == 1 else 0

    power = isup


class RefLegs:
    """Two-quadrant, four-quadrant and B6 topologies: legs = [(current index, sign)]."""

    def __init__(self, kind):
        self.kind = kind
        self.legs = {"2Q": [(0, 1)], "4Q": [(0, 1), (0, -1)], "B6": [(0, 1), (1, 1), (2, 1)]}[kind]
        self.n_out = 3 if kind == "B6" else 1
        self.n_act = {"2Q": 3, "4Q": 4, "B6": 8}[kind]
        self.reset()

    def reset(self):
        self.cmd = [0] * len(self.legs)
        self.lock = [False] * len(self.legs)

    def commands(self, a):
        if self.kind == "2Q":
            return [a]
        if self.kind == "4Q":
            return [[1, 1, 2, 2][a], [1, 2, 1, 2][a]]
        return [1 if b else 2 for b in B6_BITS[a]]

    def set_action(self, a, til):
        new = self.commands(a)
        self.lock = [bool(til) and n != o and n != 0 and o != 0 for n, o in zip(new, self.cmd)]
        self.cmd = new
        return any(self.lock)

    def states(self, locking):
        return [0 if locking and l else c for c, l in zip(self.cmd, self.lock)]

    def u(self, i, locking):
        v = [leg(s, sg * i[k]) if sg == 1 else leg(s, tm.mul(-1, i[k])) for s, (k, sg) in zip(self.states(locking), self.legs)]
        if self.kind == "4Q":
            return [tm.add(v[0], tm.mul(-1, v[1]))]
        if self.kind == "B6":
            return [tm.add(x, -0.5) for x in v]
        return v

    def isup(self, i, locking=False):
        r = 0
        for s, (k, sg) in zip(self.states(locking), self.legs):
            r = tm.add(r, leg_isup(s, tm.mul(sg, i[k])))
        return r


class RefMulti:
    def __init__(self, parts):
        self.parts = parts
        self.n_out = sum(p.n_out for p in parts)
        self.n_act = [p.n_act for p in parts]

    def reset(self):
        for p in self.parts:
            p.reset()

    def set_action(self, a, til):
        return any([p.set_action(x, til) for p, x in zip(self.parts, a)])

    def cut(self, i):
        k = 0
        for p in self.parts:
            yield p, i[k : k + p.n_out]
            k += p.n_out

    def u(self, i, locking):
        return [x for p, j in self.cut(i) for x in p.u(j, locking)]

    def isup(self, i, locking=False):
        r = 0
        for p, j in self.cut(i):
            r = tm.add(r, p.isup(j, locking))
        return r


def ref(kind):
    if kind == "1Q":
        return RefOneQ()
    if isinstance(kind, (list, tuple)):
        return RefMulti([ref(k) for k in kind])
    return RefLegs(kind)


FINITE = {"1Q": "FiniteOneQuadrantConverter", "2Q": "FiniteTwoQuadrantConverter", "4Q": "FiniteFourQuadrantConverter", "B6": "FiniteB6BridgeConverter"}
CONT = {"1Q": "ContOneQuadrantConverter", "2Q": "ContTwoQuadrantConverter", "4Q": "ContFourQuadrantConverter", "B6": "ContB6BridgeConverter"}


def label(kind):
    return kind if isinstance(kind, str) else "Multi(%s)" % ",".join(label(k) for k in kind)


def make(ck, it, kind, cont=False, **kw):
    table = CONT if cont else FINITE
    if isinstance(kind, str):
        return it.call(ck.cls(it, table[kind]), [], dict(kw))
    subs = [make(ck, it, k, cont, **kw) for k in kind]
    return it.call(ck.cls(it, "ContMultiConverter" if cont else "FiniteMultiConverter"), [], dict(kw, subconverters=subs))


# continuous, dynamically averaged -----------------------------------------------------------------------------
def sign(x):
    return tm.fn("sign", x)


def cont_u(kind, a, i, til, tau):
    """Averaged output voltage for the (clipped) duty command a, current i, interlocking time til."""
    if kind == "1Q":
        return [tm.ite(tm.lt(i[0], 0), 1, clip(a[0], 0, 1))]
    if kind == "2Q":
        return [clip(clip(a[0], 0, 1) - sign(i[0]) / tau * til, 0, 1)]
    if kind == "4Q":
        c = clip(a[0], -1, 1)
        up = cont_u("2Q", [0.5 * (c + 1)], i, til, tau)[0]
        dn = cont_u("2Q", [0.5 * (1 - c)], [tm.mul(-1, i[0])], til, tau)[0]
        return [up - dn]
    if kind == "B6":
        return [cont_u("2Q", [0.5 * (clip(x, -1, 1) + 1)], [y], til, tau)[0] - 0.5 for x, y in zip(a, i)]
    out, k = [], 0
    for p in kind:
        n = 3 if p == "B6" else 1
        out += cont_u(p, a[k : k + n], i[k : k + n], til, tau)
        k += n
    return out


def cont_isup(kind, a, i):
    """Supply current without interlocking."""
    if kind in ("1Q", "2Q"):
        return clip(a[0], 0, 1) * i[0]
    if kind == "4Q":
        c = clip(a[0], -1, 1)
        return c * i[0]
    if kind == "B6":
        r = 0
        for x, y in zip(a, i):
            r = tm.add(r, 0.5 * (clip(x, -1, 1) + 1) * y)
        return r
    r, k = 0, 0
    for p in kind:
        n = 3 if p == "B6" else 1
        r = tm.add(r, cont_isup(p, a[k : k + n], i[k : k + n]))
        k += n
    return r
