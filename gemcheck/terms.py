"""Hash-consed algebraic terms: the value domain of the abstract interpreter.

A term denotes one runtime number (or truth value) as an expression over the unknown inputs of the analysed entry
point.  Construction normalises linear combinations and products; everything else stays uninterpreted until the
identity test compares two terms at sample points of the *term algebra* (no code of the analysed program is run).
"""
import math
import random
from fractions import Fraction

_table = {}
_counter = [0]


class T:
    __slots__ = ("op", "args", "id", "dom")

    def __init__(self, op, args):
        self.op = op
        self.args = args
        _counter[0] += 1
        self.id = _counter[0]
        self.dom = None

    # arithmetic -------------------------------------------------------------------------------------------------
    def __add__(self, o):
        return add(self, o)

    def __radd__(self, o):
        return add(o, self)

    def __sub__(self, o):
        return add(self, mul(-1, o))

    def __rsub__(self, o):
        return add(o, mul(-1, self))

    def __mul__(self, o):
        return mul(self, o)

    def __rmul__(self, o):
        return mul(o, self)

    def __truediv__(self, o):
        return div(self, o)

    def __rtruediv__(self, o):
        return div(o, self)

    def __pow__(self, o):
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def __neg__(self):
        return mul(-1, self)

    def __pos__(self):
        return self

    def __abs__(self):
        return fn("abs", self)

    def __mod__(self, o):
        return fn("mod", self, o)

    def __rmod__(self, o):
        return fn("mod", o, self)

    def __floordiv__(self, o):
        return fn("floordiv", self, o)

    def __rfloordiv__(self, o):
        return fn("floordiv", o, self)

    def conjugate(self):
        return self

    def __bool__(self):
        raise TypeError("truth of a symbolic term: " + show(self))

    def __float__(self):
        raise TypeError("float of a symbolic term: " + show(self))

    def __repr__(self):
        return show(self)


def _mk(op, args):
    key = (op, args)
    t = _table.get(key)
    if t is None:
        t = T(op, args)
        _table[key] = t
    return t


def is_num(x):
    return isinstance(x, (int, float, Fraction)) and not isinstance(x, bool)


def is_const(x):
    return isinstance(x, (int, float, bool, Fraction))


def is_scalar(x):
    return isinstance(x, (int, float, bool, Fraction, complex, T))


def sym(name, dom="real"):
    key = ("sym", (name,))
    t = _table.get(key)
    if t is None:
        t = T("sym", (name,))
        t.dom = dom
        _table[key] = t
    elif t.dom != dom:
        raise ValueError("symbol %s used with domains %s and %s" % (name, t.dom, dom))
    return t


_fresh = {}


def fresh(name, dom="real"):
    n = _fresh.get(name, 0)
    _fresh[name] = n + 1
    return sym(name if n == 0 else "%s#%d" % (name, n), dom)


def _key(x):
    return x.id if isinstance(x, T) else -1


def _num(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, T):
        return x
    if isinstance(x, (int, float, Fraction)):
        return x
    import numpy as np

    if isinstance(x, np.bool_):
        return int(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        return float(x)
    raise TypeError("not a number: %r" % (x,))


def add(a, b):
    a, b = _num(a), _num(b)
    if not isinstance(a, T) and not isinstance(b, T):
        return a + b
    const = 0
    co = {}
    for x in (a, b):
        if not isinstance(x, T):
            if isinstance(x, float) and (math.isinf(x) or math.isnan(x)):
                return x
            const = const + x
        elif x.op == "add":
            const = const + x.args[0]
            for t, c in x.args[1]:
                co[t] = co.get(t, 0) + c
        elif x.op == "mul" and not isinstance(x.args[0], tuple):
            t = _mk_mul(x.args[1])
            co[t] = co.get(t, 0) + x.args[0]
        else:
            co[x] = co.get(x, 0) + 1
    items = [(t, c) for t, c in co.items() if c != 0]
    if not items:
        return const
    if len(items) == 1 and const == 0:
        t, c = items[0]
        return _scale(c, t)
    items.sort(key=lambda tc: tc[0].id)
    return _mk("add", (const, tuple(items)))


def _mk_mul(factors):
    if len(factors) == 1 and factors[0][1] == 1:
        return factors[0][0]
    return _mk("mul", (1, factors))


def _scale(c, t):
    if c == 1:
        return t
    if c == 0:
        return 0
    if t.op == "add":
        return _mk("add", (t.args[0] * c, tuple((x, k * c) for x, k in t.args[1])))
    if t.op == "mul":
        c2 = t.args[0] * c
        return _mk_mul(t.args[1]) if c2 == 1 else _mk("mul", (c2, t.args[1]))
    return _mk("mul", (c, ((t, 1),)))


def mul(a, b):
    a, b = _num(a), _num(b)
    if not isinstance(a, T) and not isinstance(b, T):
        return a * b
    coef = 1
    fs = {}
    for x in (a, b):
        if not isinstance(x, T):
            if x == 0:
                return 0
            if isinstance(x, float) and (math.isinf(x) or math.isnan(x)):
                return fn("mulinf", a, b)
            coef = coef * x
        elif x.op == "mul":
            coef = coef * x.args[0]
            for t, p in x.args[1]:
                fs[t] = fs.get(t, 0) + p
        elif x.op == "add" and x.args[0] == 0 and len(x.args[1]) > 1:
            fs[x] = fs.get(x, 0) + 1
        else:
            fs[x] = fs.get(x, 0) + 1
    items = [(t, p) for t, p in fs.items() if p != 0]
    if not items:
        return coef
    if len(items) == 1 and items[0][1] == 1:
        return _scale(coef, items[0][0])
    items.sort(key=lambda tp: tp[0].id)
    t = _mk("mul", (1, tuple(items)))
    return _scale(coef, t)


def div(a, b):
    a, b = _num(a), _num(b)
    if not isinstance(b, T):
        if not isinstance(a, T):
            if b == 0:
                return math.nan if a == 0 else math.copysign(math.inf, a)
            return a / b
        if b == 0:
            return fn("div0", a)
        if isinstance(b, float) and math.isinf(b):
            return 0.0
        if b == 1:
            return a
        return mul(a, 1 / b if not isinstance(b, int) else Fraction(1, b))
    return mul(a, power(b, -1))


def power(a, p):
    a, p = _num(a), _num(p)
    if not isinstance(p, T):
        if not isinstance(a, T):
            try:
                r = a**p
            except ZeroDivisionError:
                return math.inf
            return r
        if p == 0:
            return 1
        if p == 1:
            return a
        if isinstance(p, float) and p.is_integer():
            p = int(p)
        if a.op == "mul" and isinstance(p, int):
            items = tuple((t, q * p) for t, q in a.args[1])
            return _scale(a.args[0] ** p if p >= 0 or not isinstance(a.args[0], int) else Fraction(a.args[0]) ** p, _mk_mul(items))
        return _mk("mul", (1, ((a, p),)))
    return fn("pow", a, p)


_UNARY = {
    "sin": math.sin,
    "cos": math.cos,
    "tan": math.tan,
    "exp": math.exp,
    "log": math.log,
    "abs": abs,
    "sign": lambda x: (x > 0) - (x < 0),
    "floor": math.floor,
    "ceil": math.ceil,
    "trunc": math.trunc,
    "round": round,
    "atan": math.atan,
    "asin": math.asin,
    "acos": math.acos,
    "sinh": math.sinh,
    "cosh": math.cosh,
    "tanh": math.tanh,
    "sqrt": math.sqrt,
    "float": float,
    "int": int,
    "truth": bool,
}
_BINARY = {
    "atan2": math.atan2,
    "mod": lambda a, b: a % b,
    "floordiv": lambda a, b: a // b,
    "pow": lambda a, b: a**b,
    "sawtooth": lambda t, w: _sawtooth(t, w),
}


def _sawtooth(t, w):
    """scipy.signal.sawtooth"""
    p = (t / (2 * math.pi)) % 1.0
    if not 0 <= w <= 1:
        return math.nan
    return 2 * p / w - 1 if p < w else (1 + w - 2 * p) / (1 - w)


def fn(name, *args):
    """Known or uninterpreted function application."""
    if name == "sqrt" and isinstance(args[0], T):
        return power(args[0], 0.5)
    if name in _UNARY and not isinstance(args[0], T):
        try:
            return _UNARY[name](args[0])
        except (ValueError, OverflowError, TypeError):
            return math.nan
    if name in _BINARY and not isinstance(args[0], T) and not isinstance(args[1], T):
        try:
            return _BINARY[name](args[0], args[1])
        except (ValueError, ZeroDivisionError, OverflowError):
            return math.nan
    if name == "float" and isinstance(args[0], T):
        return args[0]
    if name == "abs" and args[0].op == "fn" and args[0].args[0] == "abs":
        return args[0]
    return _mk("fn", (name,) + args)


# conditions -----------------------------------------------------------------------------------------------------
def _is_cond(x):
    return isinstance(x, bool) or (isinstance(x, T) and x.op in ("lt", "le", "eq", "and", "or", "not"))


def _cmpconst(a, b):
    return not isinstance(a, T) and not isinstance(b, T)


def lt(a, b):
    a, b = _num(a), _num(b)
    if _cmpconst(a, b):
        return a < b
    if a is b:
        return False
    d = _diff(a, b)
    if d is not None:
        return d < 0
    s = _sign(a, b)
    if s is not None:
        return s < 0
    if _nonneg(a, b):
        return False
    return _mk("lt", (a, b))


# value ranges: open/closed intervals (lo, lo_open, hi, hi_open) ---------------------------------------------------
_INF = math.inf
_TOP = (-_INF, True, _INF, True)
_bounds_memo = {}


def bounds(t):
    if not isinstance(t, T):
        if isinstance(t, bool) or not isinstance(t, (int, float, Fraction)):
            return _TOP
        if t != t:
            return _TOP
        return (float(t), False, float(t), False)
    r = _bounds_memo.get(t)
    if r is None:
        r = _bounds_memo[t] = _bounds(t)
    return r


def _bounds(t):
    op, a = t.op, t.args
    if op == "sym":
        d = t.dom
        if d in ("pos", "small"):
            return (0.0, True, _INF, True)
        if d == "nat":
            return (0.0, False, _INF, True)
        if isinstance(d, (tuple, list)):
            if len(d) == 3 and d[0] == "range":
                return (d[1], False, d[2], False)
            if d and all(is_num(x) for x in d):
                return (min(d), False, max(d), False)
        return _TOP
    if op == "add":
        lo, lo_o, hi, hi_o = float(a[0]), False, float(a[0]), False
        for x, c in a[1]:
            b = bounds(x)
            c = float(c)
            bl, blo, bh, bho = b if c >= 0 else (b[2], b[3], b[0], b[1])
            lo, lo_o = lo + c * bl, lo_o or blo
            hi, hi_o = hi + c * bh, hi_o or bho
        if lo != lo or hi != hi:
            return _TOP
        return (lo, lo_o, hi, hi_o)
    if op == "mul":
        # sign of products of sign-definite factors, even powers
        strict, neg = True, False
        for x, p in a[1]:
            b = bounds(x)
            if b[0] > 0 or (b[0] == 0 and b[1]):
                continue
            if isinstance(p, (int, Fraction)) and p == int(p):
                p = int(p)
                if b[2] < 0 or (b[2] == 0 and b[3]):
                    neg ^= p % 2 == 1
                    continue
                if b[0] >= 0 and p > 0:
                    strict = False
                    continue
                if p % 2 == 0 and p > 0:
                    strict = False
                    continue
            return _TOP
        if float(a[0]) < 0:
            neg = not neg
        if neg:
            return (-_INF, True, 0.0, strict)
        return (0.0, strict, _INF, True)
    if op == "fn":
        n = a[0]
        if n in ("cos", "sin"):
            return (-1.0, False, 1.0, False)
        if n == "abs":
            return (0.0, False, _INF, True)
        if n == "exp":
            return (0.0, True, _INF, True)
        if n == "u01":
            return (0.0, False, 1.0, True)
        if n == "index":
            return (0.0, False, float(a[1]) - 1, False) if is_num(a[1]) else (0.0, False, _INF, True)
        if n == "mod" and is_num(a[2]) and a[2] > 0:
            return (0.0, False, float(a[2]), True)
        return _TOP
    if op == "ite":
        x, y = bounds(a[1]), bounds(a[2])
        lo = min((x[0], x[1]), (y[0], y[1]))
        hi = max((x[2], not x[3]), (y[2], not y[3]))
        return (lo[0], lo[1], hi[0], not hi[1])
    return _TOP


# path-sensitive value ranges: closed intervals, refined by the conditions that select a branch ---------------------
_FULL = (-_INF, _INF)
_UNIT = {"cos", "sin", "sawtooth", "sign", "tanh"}
_NONNEG_FN = {"abs", "exp", "sqrt", "hypot"}


def interval(t, facts=None):
    """Closed interval containing every value of the term; facts maps terms to known intervals."""
    if not isinstance(t, T):
        if isinstance(t, bool):
            return (float(t), float(t))
        if not isinstance(t, (int, float, Fraction)) or t != t:
            return _FULL
        return (float(t), float(t))
    if facts is None:
        facts = Facts()
    memo = facts.memo
    if t in memo:
        return memo[t]
    if t in facts:
        return facts[t]
    r = _interval(t, facts, memo)
    b = bounds(t)
    r = (max(r[0], b[0]), min(r[1], b[2]))
    memo[t] = r
    return r


class Facts(dict):
    """Intervals known for terms on the path considered, with the intervals derived from them."""

    def __init__(self, *a):
        super().__init__(*a)
        self.memo = {}


def _imul(x, y):
    ps = []
    for a in x:
        for b in y:
            ps.append(0.0 if a == 0 or b == 0 else a * b)
    return (min(ps), max(ps))


def _ipow(x, p):
    p = float(p)
    if p == int(p) and p > 0:
        p = int(p)
        try:
            lo, hi = x[0] ** p, x[1] ** p
        except OverflowError:
            return _FULL if p % 2 else (0.0, _INF)
        if p % 2 == 0:
            m = 0.0 if x[0] <= 0 <= x[1] else min(lo, hi)
            return (m, max(lo, hi))
        return (lo, hi)
    if x[0] > 0:
        try:
            v = sorted((x[0] ** p, x[1] ** p if x[1] < _INF else (0.0 if p < 0 else _INF)))
        except OverflowError:
            return (0.0, _INF)
        return (v[0], v[1])
    if x[0] >= 0:
        if p > 0:
            try:
                return (x[0] ** p, x[1] ** p if x[1] < _INF else _INF)
            except OverflowError:
                pass
        return (0.0, _INF)
    return _FULL


_MONOTONE_INT = {"int": int, "trunc": int, "floor": math.floor, "ceil": math.ceil, "round": round, "rint": round}


def _interval(t, facts, memo):
    op, a = t.op, t.args
    if op == "add":
        lo = hi = float(a[0])
        for x, c in a[1]:
            b = _imul(interval(x, facts), (float(c), float(c)))
            lo, hi = lo + b[0], hi + b[1]
        if lo != lo or hi != hi:
            return _FULL
        return (lo, hi)
    if op == "mul":
        r = (float(a[0]), float(a[0]))
        for x, p in a[1]:
            if isinstance(p, T):
                return _FULL
            r = _imul(r, _ipow(interval(x, facts), p))
        return r
    if op == "fn":
        n = a[0]
        if n in _UNIT:
            return (-1.0, 1.0)
        if n == "abs":
            b = interval(a[1], facts)
            return (0.0 if b[0] <= 0 <= b[1] else min(abs(b[0]), abs(b[1])), max(abs(b[0]), abs(b[1])))
        if n in _NONNEG_FN:
            return (0.0, _INF)
        if n in _MONOTONE_INT and len(a) == 2:
            b = interval(a[1], facts)
            return tuple(x if abs(x) == _INF else float(_MONOTONE_INT[n](x)) for x in b)
        if n == "pow" and is_num(a[1]) and a[1] > 0:
            return (0.0, _INF)
        if n in ("atan2", "angle"):
            return (-math.pi, math.pi)
        return _FULL
    if op == "ite":
        out = None
        for val, x in ((True, a[1]), (False, a[2])):
            f = refine(a[0], val, facts)
            if f is None:
                continue
            b = interval(x, f)
            out = b if out is None else (min(out[0], b[0]), max(out[1], b[1]))
        return out or _FULL
    return _FULL


def refine(c, val, facts):
    """Facts extended by condition c being val; None if that is impossible."""
    if not isinstance(c, T):
        return facts if bool(c) == val else None
    op, a = c.op, c.args
    if op == "not":
        return refine(a[0], not val, facts)
    if op == "and":
        if val:
            for x in a:
                facts = refine(x, True, facts)
                if facts is None:
                    return None
        return facts
    if op in ("lt", "le"):
        x, y = (a[0], a[1]) if val else (a[1], a[0])
        ix, iy = interval(x, facts), interval(y, facts)
        if ix[0] > iy[1]:
            return None
        f = _learn(x, (-_INF, iy[1]), facts)
        return None if f is None else _learn(y, (ix[0], _INF), f)
    if op == "eq" and val and all(is_scalar(x) for x in a[:2]):
        ix, iy = interval(a[0], facts), interval(a[1], facts)
        if ix[0] > iy[1] or iy[0] > ix[1]:
            return None
        f = _learn(a[0], iy, facts)
        return None if f is None else _learn(a[1], ix, f)
    return facts


def _learn(x, iv, facts):
    if not isinstance(x, T):
        return facts
    old = interval(x, facts)
    new = (max(old[0], iv[0]), min(old[1], iv[1]))
    if new[0] > new[1]:
        return None
    if new == old:
        return facts
    facts = Facts(facts)
    facts[x] = new
    if x.op == "add" and len(x.args[1]) == 1:
        (t, c), c0 = x.args[1][0], float(x.args[0])
        c = float(c)
        lo, hi = sorted(((new[0] - c0) / c, (new[1] - c0) / c))
        return _learn(t, (lo, hi), facts)
    return facts


def _dbounds(a, b):
    try:
        if any(isinstance(x, float) and not math.isfinite(x) for x in (a, b)):
            return _TOP
        return bounds(add(a, mul(-1, b)))
    except TypeError:
        return _TOP


def _sign(a, b):
    """Sign of a-b if the value ranges of the symbols decide it strictly."""
    lo, lo_o, hi, hi_o = _dbounds(a, b)
    if lo > 0 or (lo == 0 and lo_o):
        return 1
    if hi < 0 or (hi == 0 and hi_o):
        return -1
    return None


def _nonneg(a, b):
    return _dbounds(a, b)[0] >= 0


def _diff(a, b):
    """Constant value of a-b if it is a finite constant."""
    try:
        if any(isinstance(x, float) and not math.isfinite(x) for x in (a, b)):
            # comparison against infinity of a finite unknown
            if isinstance(a, float) and math.isinf(a):
                return a
            if isinstance(b, float) and math.isinf(b):
                return -b
            return None
        d = add(a, mul(-1, b))
    except TypeError:
        return None
    return d if not isinstance(d, T) else None


def le(a, b):
    a, b = _num(a), _num(b)
    if _cmpconst(a, b):
        return a <= b
    if a is b:
        return True
    return not_(lt(b, a))


def eq(a, b):
    if a is b:
        return True
    a, b = _num(a), _num(b)
    if _cmpconst(a, b):
        return a == b
    d = _diff(a, b)
    if d is not None:
        return d == 0
    if _sign(a, b) is not None:
        return False
    if _key(a) > _key(b):
        a, b = b, a
    return _mk("eq", (a, b))


def not_(c):
    if isinstance(c, bool):
        return not c
    c = cond(c)
    if isinstance(c, bool):
        return not c
    if c.op == "not":
        return c.args[0]
    return _mk("not", (c,))


def cond(x):
    """Coerce a scalar to a condition."""
    if isinstance(x, T):
        if x.op in ("lt", "le", "eq", "and", "or", "not"):
            return x
        if x.op == "sym" and x.dom == "bool":
            return x
        if x.op == "ite" and (_is_cond(x.args[1]) or _is_cond(x.args[2])):
            return x
        if x.op == "fn" and x.args[0] == "truth":
            return x
        return fn("truth", x) if x.dom == "obj" else not_(eq(x, 0))
    return bool(x)


def and_(*cs):
    out = []
    for c in cs:
        c = cond(c)
        if c is False:
            return False
        if c is True:
            continue
        if c.op == "and":
            out.extend(c.args)
        else:
            out.append(c)
    seen = []
    for c in out:
        if c not in seen:
            if not_(c) in seen:
                return False
            seen.append(c)
    if not seen:
        return True
    if len(seen) == 1:
        return seen[0]
    return _mk("and", tuple(seen))


def or_(*cs):
    return not_(and_(*[not_(c) for c in cs]))


def ite(c, a, b):
    if isinstance(c, T) and c.op == "not":
        return ite(c.args[0], b, a)
    if c is True:
        return a
    if c is False:
        return b
    if a is b or (not isinstance(a, T) and not isinstance(b, T) and type(a) is type(b) and a == b):
        return a
    a, b = restrict(a, c, True, 2), restrict(b, c, False, 2)
    if a is True and b is False:
        return c
    if a is False and b is True:
        return not_(c)
    if a is b:
        return a
    return _mk("ite", (c, a, b))


def restrict(x, c, val, depth=3):
    """Shallow simplification of x under the assumption that c has the given truth value."""
    while isinstance(x, T) and x.op == "ite" and x.args[0] is c:
        x = x.args[1] if val else x.args[2]
    if x is c:
        return val
    return x


def minimum(a, b):
    if _cmpconst(a, b):
        return min(a, b)
    return ite(lt(b, a), b, a)


def maximum(a, b):
    if _cmpconst(a, b):
        return max(a, b)
    return ite(lt(a, b), b, a)


# printing -------------------------------------------------------------------------------------------------------
def show(x, depth=6):
    if not isinstance(x, T):
        return str(float(x)) if isinstance(x, Fraction) and x.denominator != 1 else str(x)
    if depth == 0:
        return "…"
    s = lambda y: show(y, depth - 1)
    op, a = x.op, x.args
    if op == "sym":
        return str(a[0])
    if op == "add":
        parts = [(s(t) if c == 1 else "%s*%s" % (s(c), s(t))) for t, c in a[1]]
        if a[0] != 0:
            parts.append(s(a[0]))
        return "(" + " + ".join(parts) + ")"
    if op == "mul":
        parts = [] if a[0] == 1 else [s(a[0])]
        parts += [s(t) if p == 1 else "%s**%s" % (s(t), s(p)) for t, p in a[1]]
        return "*".join(parts)
    if op == "fn":
        return "%s(%s)" % (a[0], ", ".join(s(y) for y in a[1:]))
    if op in ("lt", "le", "eq"):
        return "(%s %s %s)" % (s(a[0]), {"lt": "<", "le": "<=", "eq": "=="}[op], s(a[1]))
    if op == "ite":
        return "(%s if %s else %s)" % (s(a[1]), s(a[0]), s(a[2]))
    return "%s(%s)" % (op, ", ".join(s(y) for y in a))


# traversal ------------------------------------------------------------------------------------------------------
def children(t):
    op, a = t.op, t.args
    if op == "add":
        return [x for x, _ in a[1]]
    if op == "mul":
        return [x for x, _ in a[1]]
    if op == "sym":
        return []
    if op == "fn":
        out = []
        for x in a[1:]:
            _collect(x, out)
        return out
    return [x for x in a if isinstance(x, T)]


def _collect(x, out):
    if isinstance(x, T):
        out.append(x)
    elif isinstance(x, (tuple, list)):
        for y in x:
            _collect(y, out)


def subterms(*roots):
    seen = set()
    stack = [r for r in roots if isinstance(r, T)]
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        stack.extend(children(t))
    return seen


def symbols(*roots):
    return {t for t in subterms(*roots) if t.op == "sym"}


def mentions(root, pred):
    return any(pred(t) for t in subterms(root))


def subst(t, m, memo=None):
    """Substitute terms (dict T->value)."""
    if memo is None:
        memo = {}
    if not isinstance(t, T):
        return t
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    op, a = t.op, t.args
    if op == "sym":
        r = t
    elif op == "add":
        r = a[0]
        for x, c in a[1]:
            r = add(r, mul(c, subst(x, m, memo)))
    elif op == "mul":
        r = a[0]
        for x, p in a[1]:
            r = mul(r, power(subst(x, m, memo), p))
    elif op == "fn":
        r = fn(a[0], *[_subst_any(x, m, memo) for x in a[1:]])
    elif op == "lt":
        r = lt(subst(a[0], m, memo), subst(a[1], m, memo))
    elif op == "le":
        r = le(subst(a[0], m, memo), subst(a[1], m, memo))
    elif op == "eq":
        r = eq(subst(a[0], m, memo), subst(a[1], m, memo))
    elif op == "not":
        r = not_(subst(a[0], m, memo))
    elif op == "and":
        r = and_(*[subst(x, m, memo) for x in a])
    elif op == "ite":
        r = ite(cond(subst(a[0], m, memo)), subst(a[1], m, memo), subst(a[2], m, memo))
    else:
        raise ValueError(op)
    memo[t] = r
    return r


def _subst_any(x, m, memo):
    if isinstance(x, tuple):
        return tuple(_subst_any(y, m, memo) for y in x)
    return subst(x, m, memo)


# differentiation ------------------------------------------------------------------------------------------------
def diff(t, v, memo=None):
    if memo is None:
        memo = {}
    if not isinstance(t, T):
        return 0
    if t is v:
        return 1
    if t in memo:
        return memo[t]
    op, a = t.op, t.args
    if op == "sym":
        r = 0
    elif op == "add":
        r = 0
        for x, c in a[1]:
            r = add(r, mul(c, diff(x, v, memo)))
    elif op == "mul":
        r = 0
        for i, (x, p) in enumerate(a[1]):
            dx = diff(x, v, memo)
            if isinstance(dx, T) or dx != 0:
                rest = mul(a[0], mul(p, power(x, p - 1)))
                for j, (y, q) in enumerate(a[1]):
                    if j != i:
                        rest = mul(rest, power(y, q))
                r = add(r, mul(rest, dx))
    elif op == "fn":
        name = a[0]
        ds = [diff(x, v, memo) for x in a[1:]]
        if all(not isinstance(d, T) and d == 0 for d in ds):
            r = 0
        elif name == "sin":
            r = mul(fn("cos", a[1]), ds[0])
        elif name == "cos":
            r = mul(mul(-1, fn("sin", a[1])), ds[0])
        elif name == "exp":
            r = mul(t, ds[0])
        elif name == "log":
            r = div(ds[0], a[1])
        elif name == "abs":
            r = mul(fn("sign", a[1]), ds[0])
        elif name in ("sign", "floor", "ceil", "round", "truth", "floordiv"):
            r = 0
        elif name == "mod":
            r = ds[0]
        else:
            raise NotDifferentiable(name)
    elif op == "ite":
        r = ite(a[0], diff(a[1], v, memo), diff(a[2], v, memo))
    else:
        raise NotDifferentiable(op)
    memo[t] = r
    return r


class NotDifferentiable(Exception):
    pass


# identity testing -----------------------------------------------------------------------------------------------
class Undefined(Exception):
    pass


def _h(*parts):
    return random.Random(repr(parts)).uniform(-1.5, 1.5)


def evaluate(t, env, rng, memo):
    if not isinstance(t, T):
        if isinstance(t, Fraction):
            return float(t)
        if isinstance(t, tuple):
            return tuple(evaluate(x, env, rng, memo) for x in t)
        return t
    if t in memo:
        return memo[t]
    # iterative deepening is not needed: terms are shallow; recursion limit is raised by the driver
    op, a = t.op, t.args
    if op == "sym":
        if t not in env:
            env[t] = sample(t.dom, rng)
        r = env[t]
    elif op == "add":
        r = float(a[0])
        for x, c in a[1]:
            r += float(c) * evaluate(x, env, rng, memo)
    elif op == "mul":
        r = float(a[0])
        for x, p in a[1]:
            b = evaluate(x, env, rng, memo)
            try:
                q = b ** (float(p) if isinstance(p, Fraction) else p)
            except (ZeroDivisionError, OverflowError):
                raise Undefined("pow")
            if isinstance(q, complex):
                raise Undefined("complex")
            r *= q
    elif op == "fn":
        name = a[0]
        vals = [evaluate(x, env, rng, memo) for x in a[1:]]
        if name in _UNARY and len(vals) == 1:
            try:
                r = _UNARY[name](vals[0])
            except (ValueError, OverflowError, TypeError):
                raise Undefined(name)
        elif name in _BINARY and len(vals) == 2:
            try:
                r = _BINARY[name](*vals)
            except (ValueError, ZeroDivisionError, OverflowError):
                raise Undefined(name)
            if isinstance(r, complex):
                raise Undefined(name)
        else:
            r = _h(env.get("sample"), name, tuple(_round(v) for v in vals))
            if name == "u01":
                r = (r + 1.5) / 3.0
                if GRID[0]:
                    r = 0.0 if r < 0.3 else 0.99999999 if r > 0.7 else r
            elif name in ("std_normal", "std_laplace"):
                r *= 10 ** (int(abs(r) * 1e4) % 5)  # unbounded support
            elif name in _UNIT:
                r = max(-1.0, min(1.0, r))
            elif name == "index":
                r = int((r + 1.5) / 3.0 * 0.999999 * vals[0])
    elif op == "lt":
        x, y = evaluate(a[0], env, rng, memo), evaluate(a[1], env, rng, memo)
        r = x < y and not _close(x, y)
    elif op == "le":
        x, y = evaluate(a[0], env, rng, memo), evaluate(a[1], env, rng, memo)
        r = x < y or _close(x, y)
    elif op == "eq":
        x, y = evaluate(a[0], env, rng, memo), evaluate(a[1], env, rng, memo)
        r = _close(x, y)
    elif op == "not":
        r = not evaluate(a[0], env, rng, memo)
    elif op == "and":
        r = all(evaluate(x, env, rng, memo) for x in a)
    elif op == "ite":
        r = evaluate(a[1] if evaluate(a[0], env, rng, memo) else a[2], env, rng, memo)
    else:
        raise ValueError(op)
    if isinstance(r, float) and not math.isfinite(r):
        raise Undefined("nonfinite")
    memo[t] = r
    return r


def _round(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, float)):
        return float("%.6g" % (v + 0.0)) + 0.0
    if isinstance(v, tuple):
        return tuple(_round(x) for x in v)
    return v


def _close(x, y):
    if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
        return x == y
    return abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y))


GRID = [False]


def sample(dom, rng):
    g = GRID[0]
    if dom == "bool":
        return rng.random() < 0.5
    if isinstance(dom, (list, tuple)):
        if len(dom) == 3 and dom[0] == "range":
            return rng.choice([dom[1], dom[2], rng.uniform(dom[1], dom[2])]) if g else rng.uniform(dom[1], dom[2])
        return rng.choice(dom)
    if dom == "pos":
        return rng.choice([1.0, 2.0, 0.5]) if g else rng.uniform(0.2, 2.5)
    if dom == "int":
        return rng.randint(-3, 6)
    if dom == "nat":
        return rng.randint(0, 6)
    if dom == "angle":
        return rng.choice([0.0, math.pi / 2, -math.pi / 2]) if g else rng.uniform(-math.pi, math.pi)
    if dom == "small":
        return rng.uniform(1e-5, 1e-3)
    return rng.choice([-2.0, -1.0, 0.0, 0.0, 1.0, 2.0]) if g else rng.uniform(-2.5, 2.5)


def compare(a, b, n=40, seed=1, assume=None, tol=1e-7):
    """('equal', None) | ('differ', witness) | ('undecided', reason)."""
    if a is b:
        return "equal", None
    for s_ in symbols(a, b):
        if s_.dom in ("unknown", "havoc"):
            return "undecided", "depends on %s" % show(s_)
    rng = random.Random(seed)
    ok = 0
    tries = 0
    while ok < n and tries < n * 8:
        tries += 1
        GRID[0] = tries % 2 == 0
        env, memo = {"sample": tries}, {}
        try:
            if assume is not None and not all(evaluate(c, env, rng, memo) for c in assume):
                continue
            x = evaluate(a, env, rng, memo)
            y = evaluate(b, env, rng, memo)
        except Undefined:
            continue
        except RecursionError:
            return "undecided", "term too deep"
        ok += 1
        if isinstance(x, (str, type(None))) or isinstance(y, (str, type(None))):
            same = x == y
        else:
            same = abs(float(x) - float(y)) <= tol * max(1.0, abs(x), abs(y))
        if not same:
            wit = {show(k): (round(v, 4) if isinstance(v, float) else v) for k, v in env.items() if isinstance(k, T)}
            return "differ", dict(point=wit, left=x, right=y)
    GRID[0] = False
    if ok < max(3, n // 8):
        return "undecided", "no sample points (%d/%d)" % (ok, tries)
    wit = _boundaries(a, b, rng, assume, tol)
    if wit is not None:
        return "differ", wit
    return "equal", None


def _differ(x, y, tol):
    if isinstance(x, (str, type(None), tuple)) or isinstance(y, (str, type(None), tuple)):
        return x != y
    return abs(float(x) - float(y)) > tol * max(1.0, abs(x), abs(y))


def _inside(v, dom):
    if isinstance(dom, (list, tuple)):
        return len(dom) == 3 and dom[0] == "range" and dom[1] <= v <= dom[2]
    if dom == "pos":
        return 1e-4 <= v <= 1e4
    if dom == "angle":
        return abs(v) <= math.pi
    if dom == "small":
        return 1e-6 <= v <= 1e-2
    return dom == "real"


def _boundaries(a, b, rng, assume, tol, cap=8):
    """Points on both sides of the case distinctions of both terms, which random points may miss when a case is narrow."""
    in_a, in_b = subterms(a), subterms(b)
    atoms = [x for x in in_a | in_b if x.op in ("lt", "le")]
    if not atoms or len(in_a) + len(in_b) > 4000:
        return None
    atoms.sort(key=lambda x: (x in in_a and x in in_b, x.id))  # distinctions of only one of the two terms first
    left = cap
    for at in atoms:
        lhs, rhs = at.args
        free = sorted((s for s in symbols(lhs, rhs) if s.dom in ("real", "pos", "angle", "small") or isinstance(s.dom, (list, tuple)) and len(s.dom) == 3 and s.dom[0] == "range"), key=lambda s: s.id)
        if not free or len(free) > 6:
            continue
        if left <= 0:
            return None
        left -= 1
        for s in free[:3]:
            env = {"sample": 1}
            gap = lambda v: _gap(lhs, rhs, env, s, v, rng)
            try:
                s0 = sample(s.dom, rng)
                s1 = sample(s.dom, rng)
                d0, d1 = gap(s0), gap(s1)
                if d0 == d1 or s0 == s1:
                    continue
                root = s0 - d0 * (s1 - s0) / (d1 - d0)
                if abs(gap(root)) > 1e-6 * max(abs(d0), abs(d1)):
                    root = 0.5 * root  # e.g. the absolute value folds the line: try on one side
                    d0, d1 = gap(root), gap(1.01 * root + 1e-9)
                    if d0 == d1:
                        continue
                    root = root - d0 * (0.01 * root + 1e-9) / (d1 - d0)
                    if abs(gap(root)) > 1e-6 * max(abs(d0), abs(d1), 1e-12):
                        continue
            except (Undefined, TypeError, RecursionError, ZeroDivisionError, OverflowError):
                continue
            for f in (0.5, 0.97, 1.03, 2.0, -0.97, -1.03):
                v = root * f
                if root == 0.0:
                    v = (f - 1.0) * 1e-3
                if not _inside(v, s.dom):
                    continue
                e2 = dict(env)
                e2[s] = v
                memo = {}
                try:
                    if assume is not None and not all(evaluate(c, e2, rng, memo) for c in assume):
                        continue
                    x, y = evaluate(a, e2, rng, memo), evaluate(b, e2, rng, memo)
                except (Undefined, TypeError, RecursionError):
                    continue
                for k, q in e2.items():
                    env.setdefault(k, q)
                if _differ(x, y, tol):
                    return dict(point={show(k): (round(q, 4) if isinstance(q, float) else q) for k, q in e2.items() if isinstance(k, T)}, left=x, right=y)
    return None


def _gap(lhs, rhs, env, s, v, rng):
    env[s] = v
    memo = {}
    return float(evaluate(lhs, env, rng, memo)) - float(evaluate(rhs, env, rng, memo))


def hull(t, n=200, seed=3):
    """Smallest and largest value of a term at sample points, extreme ones included; None if it cannot be sampled."""
    if not isinstance(t, T):
        return float(t), float(t)
    if any(s_.dom in ("unknown", "havoc") for s_ in symbols(t)):
        return None
    rng = random.Random(seed)
    out = []
    for k in range(n):
        GRID[0] = k % 2 == 0
        try:
            out.append(float(evaluate(t, {"sample": k}, rng, {})))
        except (Undefined, TypeError, RecursionError):
            pass
    GRID[0] = False
    return (min(out), max(out)) if out else None


def implied(goal, n=60, seed=2, assume=None):
    """Is a condition valid at all sample points?  Used for range claims whose terms are piecewise simple."""
    if goal is True:
        return "equal", None
    return compare(cond(goal), True, n=n, seed=seed, assume=assume)
