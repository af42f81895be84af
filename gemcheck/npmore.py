"""Further library models: general ways to evaluate numpy, math, operator, itertools, collections, contextlib and dataclasses.

Three general rules come before the special ones: a call with a value that depends on an undecided condition is analysed
once per alternative; a numpy function that only moves, adds and multiplies elements runs on arrays of terms; any numpy
or math function whose arguments are all known is computed."""
import itertools
import math

import numpy as np

from . import interp as I
from . import terms as tm
from .terms import T
from .values import *

# functions that only rearrange, add and multiply elements: they work on arrays of terms as they are
STRUCTURAL = set("""block tensordot take swapaxes moveaxis rollaxis triu tril kron meshgrid array_split split hsplit vsplit dsplit
broadcast_to broadcast_arrays atleast_3d pad resize dstack vstack row_stack column_stack diagonal rot90 convolve ediff1d
trim_zeros fliplr flipud partition_indices ix_ stack insert delete append tile trapezoid permute_dims unstack
linalg.multi_dot polyadd polysub polymul polyder polyint take_along_axis compress extract vander tri""".split())
# functions that write to an argument, or have a state: never evaluated by the general rules
MUTATORS = set("put place putmask copyto fill_diagonal put_along_axis save savez savetxt load loadtxt fromfile genfromtxt seterr errstate memmap set_printoptions testing".split())
LIFTED = ("numpy.", "math.", "operator.", "itertools.")
NOT_LIFTED = ("numpy.random", "numpy.errstate", "numpy.set_printoptions")
BUILTINS = "sum any all sorted list tuple set min max enumerate zip map filter reversed iter abs round divmod pow len float int bool range frozenset".split()


def concrete(v, depth=0):
    """No term, unknown, object or function inside?"""
    if isinstance(v, (list, tuple, set, frozenset)):
        return depth < 6 and all(concrete(x, depth + 1) for x in v)
    if isinstance(v, np.ndarray):
        return all(concrete(x, depth + 1) for x in v.reshape(-1)) if v.dtype == object else True
    if isinstance(v, slice):
        return concrete((v.start, v.stop, v.step))
    return v is None or isinstance(v, (bool, int, float, complex, str, range, np.generic)) or v is Ellipsis


def native(v):
    if isinstance(v, np.ndarray):
        return np.array(v.tolist()) if v.dtype == object else v
    if isinstance(v, list):
        return [native(x) for x in v]
    if isinstance(v, tuple):
        return tuple(native(x) for x in v)
    return v


def back(v):
    """A numpy result as the engine represents it."""
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, complex):
        return Cplx.of(v)
    if isinstance(v, np.ndarray):
        if v.shape == ():
            return back(v[()])
        out = np.empty(v.shape, dtype=object)
        for i in np.ndindex(v.shape):
            out[i] = back(v[i])
        return out
    if isinstance(v, list):
        return [back(x) for x in v]
    if isinstance(v, tuple):
        return tuple(back(x) for x in v)
    return v


def undecided(v):
    return isinstance(v, Phi)


def lifted(it, f, args, kwargs):
    """f(args, kwargs), once per alternative of an argument that depends on an undecided condition."""
    for n, x in enumerate(args):
        x = it.res(x)
        if undecided(x):
            return it.lift(x, lambda y: lifted(it, f, list(args[:n]) + [y] + list(args[n + 1:]), kwargs))
        if isinstance(x, (list, tuple)) and type(x) in (list, tuple):
            for m, e in enumerate(x):
                e = it.res(e)
                if undecided(e) and any(isinstance(l, (list, tuple, np.ndarray, I.IterBox)) for l in alternatives(e)):
                    return it.lift(e, lambda y: lifted(it, f, list(args[:n]) + [type(x)(list(x[:m]) + [y] + list(x[m + 1:]))] + list(args[n + 1:]), kwargs))
    for n, x in kwargs.items():
        x = it.res(x)
        if undecided(x) and n not in ("out",):
            return it.lift(x, lambda y: lifted(it, f, args, {**kwargs, n: y}))
    return f(list(args), dict(kwargs))


def alternatives(v):
    if isinstance(v, Phi):
        return alternatives(v.a) + alternatives(v.b)
    return [v]


def pure(name):
    return name.startswith(LIFTED) and not name.startswith(NOT_LIFTED)


def general(ext, name, args, kwargs):
    """The result of a numpy or math function without a special model, or UNDEF."""
    it = ext.it
    mod, _, tail = name.partition(".")
    if mod not in ("numpy", "math") or tail.split(".")[-1] in MUTATORS or tail.startswith(("random", "ctypeslib", "lib.")):
        return UNDEF
    f = np if mod == "numpy" else math
    for part in tail.split("."):
        f = getattr(f, part, None)
    if f is None or not callable(f):
        return UNDEF
    args = [it.res(x) for x in args]
    args = [x.drain() if isinstance(x, I.IterBox) else list(x.items) if isinstance(x, I.Deque) else x for x in args]
    kwargs = {k: it.res(v) for k, v in kwargs.items()}
    dtypes = {k: v for k, v in kwargs.items() if k == "dtype"}
    kwargs = {k: v for k, v in kwargs.items() if k != "dtype"}
    if concrete(args) and concrete(list(kwargs.values())):
        try:
            r = back(f(*[native(x) for x in args], **{k: native(v) for k, v in kwargs.items()}))
        except Exception as e:
            raise AbsRaise("%s: %s" % (type(e).__name__, e), it.loc())
        return ext.cast(r, dtypes["dtype"]) if dtypes.get("dtype") is not None and isinstance(r, np.ndarray) else r
    if mod == "numpy" and tail in STRUCTURAL:
        def objs(v, top=True):
            if isinstance(v, (list, tuple)) and any(not concrete(x) for x in v):
                if tail in ("block",):
                    return [objs(x) for x in v]
                if any(isinstance(x, np.ndarray) for x in v):
                    return [objs(x) for x in v]
                from .extlib import toarr

                return toarr(it, v)
            return v

        try:
            r = f(*[objs(x) for x in args], **kwargs)
        except (ValueError, IndexError, np.exceptions.AxisError) as e:
            raise AbsRaise("%s: %s" % (type(e).__name__, e), it.loc())
        except TypeError:
            return UNDEF
        return r[()] if isinstance(r, np.ndarray) and r.shape == () else r
    return UNDEF


def determinant(it, m):
    if m.shape[0] == 1:
        return m[0, 0]
    acc = 0
    for j in range(m.shape[0]):
        sub = np.delete(np.delete(m, 0, 0), j, 1)
        term = it.binop("Mult", m[0, j], determinant(it, sub))
        acc = it.binop("Add", acc, term) if j % 2 == 0 else it.binop("Sub", acc, term)
    return acc


class Sequence:
    """Endless iterators (itertools.count, itertools.cycle): items on demand."""


def register(ext):
    from .extlib import toarr, cumop, reduce_axis

    it, F = ext.it, ext.fns

    def reg(*names):
        def d(f):
            for n in names:
                F[n] = f
            return f

        return d

    # numbers ---------------------------------------------------------------------------------------------
    def scalars(f):
        def h(it, a, k):
            xs = [it.res(x) for x in a]
            if any(isinstance(x, (np.ndarray, list, tuple)) for x in xs):
                return I.elementwise(lambda *v: f(it, *[it.num(q) for q in v]), *[toarr(it, x) for x in xs])
            return f(it, *[it.num(x) for x in xs])

        return h

    def trunc_mod(it, x, y):
        if isinstance(x, T) or isinstance(y, T):
            return it.binop("Sub", x, it.binop("Mult", y, tm.fn("trunc", it.binop("Div", x, y))))
        return math.fmod(x, y)

    F["numpy.fmod"] = F["math.fmod"] = scalars(trunc_mod)
    for n, f in dict(
        log1p=lambda it, x: tm.fn("log", it.binop("Add", 1, x)),
        expm1=lambda it, x: it.binop("Sub", tm.fn("exp", x), 1),
        exp2=lambda it, x: it.binop("Pow", 2, x),
        degrees=lambda it, x: it.binop("Mult", x, 180 / math.pi),
        arcsinh=lambda it, x: tm.fn("log", it.binop("Add", x, tm.fn("sqrt", it.binop("Add", it.binop("Mult", x, x), 1)))),
        arccosh=lambda it, x: tm.fn("log", it.binop("Add", x, tm.fn("sqrt", it.binop("Sub", it.binop("Mult", x, x), 1)))),
        arctanh=lambda it, x: it.binop("Mult", 0.5, tm.fn("log", it.binop("Div", it.binop("Add", 1, x), it.binop("Sub", 1, x)))),
        positive=lambda it, x: x,
        signbit=lambda it, x: tm.lt(x, 0),
        sinc=lambda it, x: tm.ite(tm.cond(tm.eq(x, 0)), 1.0, it.binop("Div", tm.fn("sin", it.binop("Mult", math.pi, x)), it.binop("Mult", math.pi, x))),
    ).items():
        F["numpy." + n] = scalars(f)
    alias = {"asinh": "arcsinh", "acosh": "arccosh", "atanh": "arctanh", "asin": "arcsin", "acos": "arccos", "atan": "arctan", "atan2": "arctan2", "pow": "power", "concat": "concatenate", "deg2rad": "radians"}
    for new, old in alias.items():
        for m in ("numpy.", "math."):
            F.setdefault(m + new, F["numpy." + old])
    for n in ("log1p", "expm1", "exp2", "degrees", "radians", "log2", "log10", "trunc", "floor", "ceil", "sqrt", "cbrt", "sin", "cos", "tan", "sinh", "cosh", "tanh", "exp", "copysign", "isfinite", "isinf", "isnan"):
        F.setdefault("math." + n, F["numpy." + n])
    F["math.fabs"] = F["numpy.abs"]
    base_log = F["numpy.log"]
    F["math.log"] = lambda it, a, k: base_log(it, a[:1], {}) if len(a) < 2 else it.binop("Div", base_log(it, a[:1], {}), base_log(it, a[1:], {}))
    F["math.hypot"] = lambda it, a, k: tm.fn("sqrt", total(it, [it.binop("Mult", x, x) for x in a]))
    F["math.dist"] = lambda it, a, k: tm.fn("sqrt", total(it, [(lambda d: it.binop("Mult", d, d))(it.binop("Sub", p, q)) for p, q in zip(it.iterate(a[0]), it.iterate(a[1]))]))
    F["math.sumprod"] = lambda it, a, k: total(it, [it.binop("Mult", p, q) for p, q in zip(it.iterate(a[0]), it.iterate(a[1]))])
    F["math.fma"] = lambda it, a, k: it.binop("Add", it.binop("Mult", a[0], a[1]), a[2])

    def total(it, xs):
        acc = 0
        for x in xs:
            acc = it.binop("Add", acc, x)
        return acc

    def modf(it, a, k):
        x = it.num(it.res(a[0]))
        if isinstance(x, T):
            t = tm.fn("trunc", x)
            return (it.binop("Sub", x, t), t)
        return math.modf(x)

    F["math.modf"] = F["numpy.modf"] = modf

    # comparisons with a tolerance
    def close(it, x, y, rtol, atol):
        x, y = it.num(x), it.num(y)
        if x is y or (not isinstance(x, T) and not isinstance(y, T) and x == y):
            return True
        bound = it.binop("Add", atol, it.binop("Mult", rtol, tm.fn("abs", y)))
        return tm.le(tm.fn("abs", it.binop("Sub", x, y)), bound)

    def tolerances(a, k, r, t):
        return (a[2] if len(a) > 2 else k.get("rtol", r)), (a[3] if len(a) > 3 else k.get("atol", t))

    def isclose(it, a, k):
        r, t = tolerances(a, k, 1e-5, 1e-8)
        x, y = it.res(a[0]), it.res(a[1])
        if isinstance(x, (np.ndarray, list, tuple)) or isinstance(y, (np.ndarray, list, tuple)):
            return I.elementwise(lambda p, q: close(it, p, q, r, t), toarr(it, x), toarr(it, y))
        return close(it, x, y, r, t)

    F["numpy.isclose"] = isclose

    def allclose(it, a, k):
        r = isclose(it, a, k)
        return tm.and_(True, *list(r.reshape(-1))) if isinstance(r, np.ndarray) else r

    F["numpy.allclose"] = allclose

    def misclose(it, a, k):
        x, y = it.num(a[0]), it.num(a[1])
        if x is y:
            return True
        rel, ab = k.get("rel_tol", 1e-9), k.get("abs_tol", 0.0)
        return tm.le(tm.fn("abs", it.binop("Sub", x, y)), tm.maximum(it.binop("Mult", rel, tm.maximum(tm.fn("abs", x), tm.fn("abs", y))), ab))

    F["math.isclose"] = misclose

    # arrays ------------------------------------------------------------------------------------------------
    def linspace(it, a, k, base=F["numpy.linspace"]):
        a = list(a)
        step = k.pop("retstep", False) or (a[4] if len(a) > 4 else False)
        if len(a) > 3:
            k["endpoint"] = a[3]
        r = base(it, a[:3], k)
        if not step:
            return r
        lo, hi = (a[0] if a else k["start"]), (a[1] if len(a) > 1 else k["stop"])
        n = a[2] if len(a) > 2 else k.get("num", 50)
        return (r, it.binop("Div", it.binop("Sub", hi, lo), n - 1 if k.get("endpoint", True) else n))

    F["numpy.linspace"] = linspace

    def stack(it, a, k):
        items = it.iterate(a[0])
        if items is None:
            return it.unknown("stack", "stack unknown")
        try:
            return np.stack([toarr(it, x) for x in items], axis=k.get("axis", a[1] if len(a) > 1 else 0))
        except ValueError as e:
            raise AbsRaise("ValueError: %s" % e, it.loc())

    F["numpy.stack"] = stack

    def vstack(it, a, k):
        items = it.iterate(a[0])
        if items is None:
            return it.unknown("vstack", "vstack unknown")
        try:
            return np.vstack([toarr(it, x) for x in items])
        except ValueError as e:
            raise AbsRaise("ValueError: %s" % e, it.loc())

    F["numpy.vstack"] = vstack

    def column_stack(it, a, k):
        items = it.iterate(a[0])
        if items is None:
            return it.unknown("column_stack", "column_stack unknown")
        try:
            return np.column_stack([toarr(it, x) for x in items])
        except ValueError as e:
            raise AbsRaise("ValueError: %s" % e, it.loc())

    F["numpy.column_stack"] = column_stack

    def split(it, a, k, f=np.split):
        ix = a[1] if len(a) > 1 else k["indices_or_sections"]
        ix = [int(x) for x in toarr(it, ix)] if isinstance(ix, (list, tuple, np.ndarray)) else ix
        try:
            return list(f(toarr(it, a[0]), ix, **{q: v for q, v in k.items() if q == "axis"}))
        except ValueError as e:
            raise AbsRaise("ValueError: %s" % e, it.loc())

    F["numpy.split"] = split
    F["numpy.array_split"] = lambda it, a, k: split(it, a, k, np.array_split)

    def det(it, a, k):
        m = toarr(it, a[0])
        return determinant(it, m) if m.ndim == 2 and m.shape[0] <= 4 else it.unknown("det", "determinant")

    F["numpy.linalg.det"] = det
    inv = F["numpy.linalg.inv"]

    def solve(it, a, k):
        m, r = toarr(it, a[0]), toarr(it, a[1])
        i = inv(it, [m], {})
        return it.matmul(i, r) if isinstance(i, np.ndarray) else i

    F["numpy.linalg.solve"] = solve

    def norm(it, a, k, base=F["numpy.linalg.norm"]):
        o = a[1] if len(a) > 1 else k.get("ord")
        ax = a[2] if len(a) > 2 else k.get("axis")
        x = toarr(it, a[0])
        sq = lambda v: (lambda n: it.binop("Mult", n, n))(it.call(it.builtins["abs"], [v], {}))
        if ax is not None and o in (None, 2):
            return I.elementwise(lambda v: tm.fn("sqrt", v), reduce_axis(it, I.elementwise(sq, x), ax, lambda p, q: it.scalar_op("Add", p, q), 0))
        if o in (None, 2) and x.ndim <= 1 or o in (None, "fro"):
            return tm.fn("sqrt", total(it, [sq(v) for v in x.reshape(-1)]))
        mags = [it.call(it.builtins["abs"], [v], {}) for v in x.reshape(-1)]
        if x.ndim == 1 and o == 1:
            return total(it, mags)
        if x.ndim == 1 and o in (math.inf, -math.inf):
            r = mags[0]
            for m in mags[1:]:
                r = tm.maximum(r, m) if o > 0 else tm.minimum(r, m)
            return r
        return it.unknown("norm", "matrix norm")

    F["numpy.linalg.norm"] = norm

    # ufunc methods
    UFUNC = {"add": ("Add", 0), "multiply": ("Mult", 1), "subtract": ("Sub", None), "minimum": None, "maximum": None, "logical_and": None, "logical_or": None}

    def binary(name):
        h = F["numpy." + name]
        return lambda p, q: h(it, [p, q], {})

    for name in UFUNC:
        def reduce_(it, a, k, name=name):
            x = toarr(it, a[0])
            ax = k.get("axis", a[1] if len(a) > 1 else 0)
            if x.size == 0:
                if name in ("add", "multiply", "logical_and", "logical_or"):
                    return {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False}[name]
                raise AbsRaise("ValueError: zero-size array to reduction operation", it.loc())
            f = binary(name)
            if name.startswith("logical"):
                x = I.elementwise(lambda v: it.truth(v), x)
            if "initial" in k:
                return reduce_axis(it, x, ax, f, k["initial"])
            return reduce_axis(it, x, ax, f, None)

        def accumulate(it, a, k, name=name):
            x, f = toarr(it, a[0]), binary(name)
            if x.ndim != 1:
                return it.unknown("accumulate", "accumulate of a matrix")
            out = []
            for v in x:
                out.append(v if not out else f(out[-1], v))
            return I.arr(out)

        def outer(it, a, k, name=name):
            x, y, f = toarr(it, a[0]), toarr(it, a[1]), binary(name)
            return I.arr([[f(p, q) for q in y.reshape(-1)] for p in x.reshape(-1)]).reshape(x.shape + y.shape)

        def at(it, a, k, name=name):
            x = it.res(a[0])
            for n, j in enumerate(it.iterate(a[1]) if isinstance(it.res(a[1]), (list, tuple, np.ndarray)) else [a[1]]):
                v = a[2] if not isinstance(it.res(a[2]), (list, tuple, np.ndarray)) else it.iterate(a[2])[n]
                it.setitem(x, j, binary(name)(it.getitem(x, j), v))

        F["numpy.%s.reduce" % name], F["numpy.%s.accumulate" % name], F["numpy.%s.outer" % name], F["numpy.%s.at" % name] = reduce_, accumulate, outer, at

    # where= and initial= of element-wise functions
    for name in [n for n in F if n.startswith("numpy.") and n.count(".") == 1]:
        if name[6:] not in "add subtract multiply divide true_divide power mod remainder floor_divide minimum maximum sqrt exp log sin cos abs absolute arctan2 negative square reciprocal".split():
            continue

        def masked(it, a, k, h=F[name]):
            m = k.pop("where", None)
            if m is None or m is True:
                return h(it, a, k)
            out = k.pop("out", None)
            out = it.res(out[0] if isinstance(out, tuple) else out)
            r = toarr(it, h(it, a, k))
            old = out if isinstance(out, np.ndarray) else I.arr(np.full(r.shape, U("uninitialised", dom="unknown").term, dtype=object))
            m = np.broadcast_to(toarr(it, m), r.shape)
            res = I.elementwise(lambda c, n, o: it.merge(tm.cond(it.truth(c)), n, o) if isinstance(it.truth(c), T) else (n if it.truth(c) else o), m, r, np.broadcast_to(old, r.shape))
            if isinstance(out, np.ndarray):
                it.log_arr(out)
                out[...] = res
                return out
            return res

        F[name] = masked

    def with_ndmin(h):
        def f(it, a, k):
            n = k.pop("ndmin", 0)
            r = h(it, a, k)
            while isinstance(r, np.ndarray) and r.ndim < n:
                r = r[None]
            return r

        return f

    F["numpy.array"] = with_ndmin(F["numpy.array"])

    # statistics
    def moment(root):
        def h(it, a, k):
            x = it.res(a[0])
            if isinstance(x, U):
                return it.unknown("std", "spread of unknown")
            x = toarr(it, x)
            ax, dd = k.get("axis", a[1] if len(a) > 1 else None), k.get("ddof", 0)
            n = x.size if ax is None else x.shape[ax]
            add = lambda p, q: it.scalar_op("Add", p, q)
            mean = reduce_axis(it, x, ax, add, 0)
            mean = I.elementwise(lambda v: it.binop("Div", v, n), mean) if isinstance(mean, np.ndarray) else it.binop("Div", mean, n)
            dev = I.elementwise(lambda p, q: (lambda d: it.binop("Mult", d, d))(it.binop("Sub", p, q)), x, np.expand_dims(mean, ax) if isinstance(mean, np.ndarray) else I.arr(mean))
            s = reduce_axis(it, dev, ax, add, 0)
            fin = lambda v: (tm.fn("sqrt", it.binop("Div", v, n - dd)) if root else it.binop("Div", v, n - dd))
            return I.elementwise(fin, s) if isinstance(s, np.ndarray) else fin(s)

        return h

    F["numpy.std"], F["numpy.var"] = moment(True), moment(False)

    def average(it, a, k, base=F["numpy.mean"]):
        w = it.res(k.get("weights", a[2] if len(a) > 2 else None))
        if w is None:
            return base(it, a[:2], {q: v for q, v in k.items() if q == "axis"})
        x, w = toarr(it, a[0]).reshape(-1), toarr(it, w).reshape(-1)
        return it.binop("Div", total(it, [it.binop("Mult", p, q) for p, q in zip(x, w)]), total(it, list(w)))

    F["numpy.average"] = average

    def median(it, a, k):
        from .extlib import sort_terms

        x = sort_terms(it, list(toarr(it, a[0]).reshape(-1)))
        n = len(x)
        return x[n // 2] if n % 2 else it.binop("Div", it.binop("Add", x[n // 2 - 1], x[n // 2]), 2)

    F["numpy.median"] = median
    F["numpy.ptp"] = lambda it, a, k: it.binop("Sub", F["numpy.max"](it, [a[0]], {}), F["numpy.min"](it, [a[0]], {}))

    def count_nonzero(it, a, k):
        n = 0
        for v in toarr(it, a[0]).reshape(-1):
            c = it.truth(it.compare("NotEq", v, 0)) if not isinstance(v, bool) and not (isinstance(v, T) and tm._is_cond(v)) else v
            n = it.binop("Add", n, 1 if c is True else 0 if c is False else tm.ite(tm.cond(c), 1, 0))
        return n

    F["numpy.count_nonzero"] = count_nonzero

    def cumulative(op):
        def h(it, a, k):
            x, ax = toarr(it, a[0]), k.get("axis", a[1] if len(a) > 1 else None)
            if ax is None or x.ndim == 1:
                return cumop(it, x, op)
            m = np.moveaxis(x, ax, -1)
            r = I.arr([list(cumop(it, row, op)) for row in m.reshape(-1, m.shape[-1])]).reshape(m.shape)
            return np.moveaxis(r, -1, ax)

        return h

    F["numpy.cumsum"], F["numpy.cumprod"] = cumulative("Add"), cumulative("Mult")

    def diff(it, a, k):
        x = toarr(it, a[0])
        n, ax = k.get("n", a[1] if len(a) > 1 else 1), k.get("axis", -1)
        for _ in range(n):
            m = np.moveaxis(x, ax, -1)
            x = np.moveaxis(I.elementwise(lambda p, q: it.scalar_op("Sub", p, q), m[..., 1:], m[..., :-1]), -1, ax)
        return x

    F["numpy.diff"] = diff

    # calls of functions
    def vectorize(it, a, k):
        f = a[0]

        def g(i, b, kk):
            xs = [i.res(x) for x in b]
            if any(isinstance(x, (np.ndarray, list, tuple)) for x in xs):
                return I.elementwise(lambda *v: i.num(i.call(f, list(v), kk)), *[toarr(i, x) for x in xs])
            return i.call(f, xs, kk)

        return Native("vectorize", g)

    F["numpy.vectorize"] = vectorize
    F["numpy.frompyfunc"] = lambda it, a, k: vectorize(it, a[:1], {})

    def apply_along_axis(it, a, k):
        f, ax, x = a[0], a[1], toarr(it, a[2])
        m = np.moveaxis(x, ax, -1)
        rows = [it.call(f, [r] + list(a[3:]), k) for r in m.reshape(-1, m.shape[-1])]
        if rows and isinstance(rows[0], np.ndarray):
            return np.moveaxis(I.arr([list(r) for r in rows]).reshape(m.shape[:-1] + rows[0].shape), -1, ax)
        return I.arr(rows).reshape(m.shape[:-1])

    F["numpy.apply_along_axis"] = apply_along_axis

    def piecewise(it, a, k):
        x, conds, fs = it.res(a[0]), it.iterate(a[1]), it.iterate(a[2])
        val = lambda f: it.call(f, [x] + list(a[3:]), {}) if callable_(f) else f
        callable_ = lambda f: not I.is_scalar(f) and not isinstance(f, (T, np.ndarray))
        r = val(fs[len(conds)]) if len(fs) > len(conds) else 0
        for c, f in zip(conds, fs):
            r = F["numpy.where"](it, [c, val(f), r], {})
        return r

    F["numpy.piecewise"] = piecewise

    def interp(it, a, k):
        xs, ys = [it.num(v) for v in toarr(it, a[1])], [it.num(v) for v in toarr(it, a[2])]
        if any(isinstance(v, T) for v in xs):
            return it.unknown("interp", "interpolation between unknown points")

        def one(it, x):
            r = ys[-1] if "right" not in k else k["right"]
            at_end = ys[-1]
            r = tm.ite(tm.cond(tm.le(x, xs[-1])), at_end, r) if "right" in k else r
            for n in range(len(xs) - 2, -1, -1):
                slope = it.binop("Div", it.binop("Sub", ys[n + 1], ys[n]), xs[n + 1] - xs[n])
                v = it.binop("Add", ys[n], it.binop("Mult", slope, it.binop("Sub", x, xs[n])))
                c = tm.lt(x, xs[n + 1])
                r = v if c is True else r if c is False else tm.ite(c, v, r)
            c = tm.lt(x, xs[0])
            lo = ys[0] if "left" not in k else k["left"]
            return lo if c is True else r if c is False else tm.ite(c, lo, r)

        return scalars(one)(it, a[:1], {})

    F["numpy.interp"] = interp

    def put(it, a, k):
        x = it.res(a[0])
        ix = [int(v) for v in toarr(it, a[1]).reshape(-1)]
        vals = list(toarr(it, a[2]).reshape(-1))
        it.log_arr(x)
        for n, j in enumerate(ix):
            x.reshape(-1)[j] = vals[n % len(vals)]

    F["numpy.put"] = put

    def fill_diagonal(it, a, k):
        x = it.res(a[0])
        it.log_arr(x)
        vals = list(toarr(it, a[1]).reshape(-1))
        for n in range(min(x.shape)):
            x[n, n] = vals[n % len(vals)]

    F["numpy.fill_diagonal"] = fill_diagonal

    def putmask(it, a, k):
        it.setitem(a[0], a[1], a[2])

    F["numpy.putmask"] = F["numpy.place"] = putmask
    F["numpy.fromiter"] = lambda it, a, k: F["numpy.array"](it, [list(it.iterate(a[0]))], {q: v for q, v in k.items() if q == "dtype"})
    F["numpy.ndindex"] = lambda it, a, k: I.IterBox([tuple(i) for i in np.ndindex(*[tuple(x) if isinstance(x, list) else x for x in a])])
    F["numpy.ndenumerate"] = lambda it, a, k: I.IterBox([(i, toarr(it, a[0])[i]) for i in np.ndindex(toarr(it, a[0]).shape)])
    F["numpy.nditer"] = lambda it, a, k: I.IterBox(list(toarr(it, a[0]).reshape(-1)))
    F["numpy.broadcast_shapes"] = lambda it, a, k: np.broadcast_shapes(*a)

    def unique(it, a, k):
        x = toarr(it, a[0])
        if not concrete(x):
            return it.unknown("unique", "unique of symbolic values")
        r = np.unique(native(x), **{q: v for q, v in k.items()})
        return back(r) if not isinstance(r, tuple) else tuple(back(v) for v in r)

    F["numpy.unique"] = unique

    def argsort(it, a, k):
        x = toarr(it, a[0])
        if not concrete(x):
            return it.unknown("argsort", "argsort of symbolic values")
        return back(np.argsort(native(x), kind="stable", **{q: v for q, v in k.items() if q == "axis"}))

    F["numpy.argsort"] = argsort

    def searchsorted(it, a, k):
        xs, side = [it.num(v) for v in toarr(it, a[0])], k.get("side", a[2] if len(a) > 2 else "left")

        def one(it, v):
            n = 0
            for x in xs:
                c = tm.lt(x, v) if side == "left" else tm.le(x, v)
                n = it.binop("Add", n, 1 if c is True else 0 if c is False else tm.ite(c, 1, 0))
            return n

        return scalars(one)(it, [a[1]], {})

    F["numpy.searchsorted"] = searchsorted
    F["bisect.bisect_left"] = lambda it, a, k: searchsorted(it, a[:2], {"side": "left"})
    F["bisect.bisect"] = F["bisect.bisect_right"] = lambda it, a, k: searchsorted(it, a[:2], {"side": "right"})

    def finfo(it, a, k):
        m = Mock("finfo")
        m.attrs.update(eps=float(np.finfo(float).eps), max=float(np.finfo(float).max), min=float(np.finfo(float).min), tiny=float(np.finfo(float).tiny))
        return m

    F["numpy.finfo"] = finfo
    for n in ("int8", "int16", "int32", "uint8", "uint16", "uint32", "uint64", "intp"):
        F.setdefault("numpy." + n, scalars(lambda it, v, n=n: ext.cast(v, Ext("numpy.int64"))))
    for n in ("float16", "double", "longdouble"):
        F.setdefault("numpy." + n, F["numpy.float64"])

    # operator ----------------------------------------------------------------------------------------------
    for n, o in dict(add="Add", sub="Sub", mul="Mult", truediv="Div", floordiv="FloorDiv", mod="Mod", pow="Pow", and_="BitAnd", or_="BitOr", xor="BitXor", matmul="MatMult", lshift="LShift", rshift="RShift", concat="Add").items():
        F["operator." + n] = lambda it, a, k, o=o: it.binop(o, a[0], a[1])
        F["operator.i" + n.rstrip("_")] = lambda it, a, k, o=o: it.binop(o, a[0], a[1])
    for n, o in dict(lt="Lt", le="LtE", gt="Gt", ge="GtE", eq="Eq", ne="NotEq").items():
        F["operator." + n] = lambda it, a, k, o=o: it.compare(o, a[0], a[1])
    for n, o in dict(neg="USub", pos="UAdd", inv="Invert", invert="Invert").items():
        F["operator." + n] = lambda it, a, k, o=o: it.unop(o, a[0])
    F["operator.abs"] = lambda it, a, k: it.call(it.builtins["abs"], a, {})
    F["operator.not_"] = lambda it, a, k: tm.not_(it.truth(a[0]))
    F["operator.truth"] = lambda it, a, k: it.truth(a[0])
    F["operator.is_"] = lambda it, a, k: it.compare("Is", a[0], a[1])
    F["operator.is_not"] = lambda it, a, k: it.compare("IsNot", a[0], a[1])
    F["operator.contains"] = lambda it, a, k: it.contains(a[0], a[1])
    F["operator.getitem"] = lambda it, a, k: it.getitem(a[0], a[1])
    F["operator.setitem"] = lambda it, a, k: it.setitem(a[0], a[1], a[2])
    F["operator.call"] = lambda it, a, k: it.call(a[0], a[1:], k)
    F["operator.index"] = lambda it, a, k: a[0]
    F["operator.methodcaller"] = lambda it, a, k: Native("methodcaller", lambda i, b, kk: i.call(i.getattr(b[0], a[0]), list(a[1:]), dict(k)))

    def attrgetter(it, a, k):
        def one(i, o, path):
            for p in path.split("."):
                o = i.getattr(o, p)
            return o

        return Native("attrgetter", lambda i, b, kk: one(i, b[0], a[0]) if len(a) == 1 else tuple(one(i, b[0], p) for p in a))

    F["operator.attrgetter"] = attrgetter

    # itertools ---------------------------------------------------------------------------------------------
    def items(it, v):
        r = it.iterate(v)
        return r

    def over(f):
        def h(it, a, k):
            ls = [items(it, x) for x in a]
            if any(l is None for l in ls):
                return it.unknown("itertools", "iteration over unknown")
            return I.IterBox(f(it, ls, k))

        return h

    def decided(it, c):
        return it.known(it.truth(c))

    F["itertools.zip_longest"] = over(lambda it, ls, k: [tuple(x) for x in itertools.zip_longest(*ls, fillvalue=k.get("fillvalue"))])
    F["itertools.combinations"] = lambda it, a, k: I.IterBox([tuple(x) for x in itertools.combinations(items(it, a[0]), a[1] if len(a) > 1 else k["r"])])
    F["itertools.combinations_with_replacement"] = lambda it, a, k: I.IterBox([tuple(x) for x in itertools.combinations_with_replacement(items(it, a[0]), a[1])])
    F["itertools.permutations"] = lambda it, a, k: I.IterBox([tuple(x) for x in itertools.permutations(items(it, a[0]), *a[1:])])
    F["itertools.starmap"] = lambda it, a, k: I.IterBox([it.call(a[0], list(it.iterate(x)), {}) for x in items(it, a[1])])

    def compress(it, a, k):
        out = []
        for x, s in zip(items(it, a[0]), items(it, a[1])):
            c = decided(it, s)
            if c is None:
                return it.unknown("compress", "symbolic selector")
            if c:
                out.append(x)
        return I.IterBox(out)

    F["itertools.compress"] = compress

    def while_(take):
        def h(it, a, k):
            out, going = [], True
            for x in items(it, a[1]):
                if going:
                    c = decided(it, it.call(a[0], [x], {}))
                    if c is None:
                        return it.unknown("takewhile", "symbolic predicate")
                    going = c
                if going == take:
                    out.append(x)
                elif take:
                    break
            return I.IterBox(out)

        return h

    F["itertools.takewhile"], F["itertools.dropwhile"] = while_(True), while_(False)

    def filterfalse(it, a, k):
        out = []
        for x in items(it, a[1]):
            c = decided(it, it.call(a[0], [x], {}) if a[0] is not None else x)
            if c is None:
                return it.unknown("filterfalse", "symbolic predicate")
            if not c:
                out.append(x)
        return I.IterBox(out)

    F["itertools.filterfalse"] = filterfalse

    def accumulate(it, a, k):
        f = a[1] if len(a) > 1 else k.get("func")
        out = [k["initial"]] if "initial" in k else []
        for x in items(it, a[0]):
            out.append(x if not out else it.call(f, [out[-1], x], {}) if f is not None else it.binop("Add", out[-1], x))
        return I.IterBox(out)

    F["itertools.accumulate"] = accumulate

    def groupby(it, a, k):
        f = a[1] if len(a) > 1 else k.get("key")
        out = []
        for x in items(it, a[0]):
            key = it.call(f, [x], {}) if f is not None else x
            if out and decided(it, it.equal(out[-1][0], key)) is None:
                return it.unknown("groupby", "symbolic key")
            if out and decided(it, it.equal(out[-1][0], key)):
                out[-1][1].append(x)
            else:
                out.append((key, [x]))
        return I.IterBox([(key, I.IterBox(l)) for key, l in out])

    F["itertools.groupby"] = groupby
    F["itertools.batched"] = lambda it, a, k: (lambda l: I.IterBox([tuple(l[i:i + a[1]]) for i in range(0, len(l), a[1])]))(items(it, a[0]))
    F["itertools.tee"] = lambda it, a, k: (lambda l: tuple(I.IterBox(list(l)) for _ in range(a[1] if len(a) > 1 else 2)))(items(it, a[0]))
    F["itertools.count"] = lambda it, a, k: I.IterBox(I.Endless(lambda n: it.binop("Add", a[0] if a else k.get("start", 0), it.binop("Mult", n, a[1] if len(a) > 1 else k.get("step", 1)))))
    F["itertools.cycle"] = lambda it, a, k: (lambda l: I.IterBox(I.Endless(lambda n: l[n % len(l)])) if l else I.IterBox([]))(items(it, a[0]))

    def repeat(it, a, k):
        n = a[1] if len(a) > 1 else k.get("times")
        return I.IterBox([a[0]] * n) if n is not None else I.IterBox(I.Endless(lambda i: a[0]))

    F["itertools.repeat"] = repeat

    def islice(it, a, k):
        x = it.res(a[0])
        if isinstance(x, I.IterBox) and isinstance(x.items, I.Endless):
            s = slice(*a[1:])
            taken = [next_item(it, x) for _ in range(s.stop)]
            return I.IterBox(taken[s])
        if isinstance(x, I.IterBox):
            s = slice(*a[1:])
            if s.start in (None, 0) and s.step in (None, 1) and s.stop is not None:
                return I.IterBox([next_item(it, x) for _ in range(min(s.stop, len(x.items)))])
        return I.IterBox(list(it.iterate(x))[slice(*a[1:])])

    def next_item(it, x):
        it.log_list(x.items)
        return x.items.pop(0)

    F["itertools.islice"] = islice

    # collections -------------------------------------------------------------------------------------------
    def namedtuple(it, a, k):
        names = a[1] if len(a) > 1 else k["field_names"]
        if isinstance(names, str):
            names = names.replace(",", " ").split()
        return it.named_tuple(a[0], list(it.iterate(names)), list(it.iterate(k.get("defaults", ())) or []))

    F["collections.namedtuple"] = namedtuple

    def chainmap(it, a, k):
        d = {}
        for m in reversed(a):
            d.update(it.res(m))
        return d

    F["collections.ChainMap"] = chainmap

    def counter(it, a, k):
        d = I.DefaultDict(Native("zero", lambda i, b, kk: 0))
        for x in it.iterate(a[0]) if a else []:
            key = it.hashkey(x)
            d[key] = d.get(key, 0) + 1
        return d

    F["collections.Counter"] = counter

    def defaultdict(it, a, k):
        d = I.DefaultDict(a[0] if a else None)
        if len(a) > 1:
            d.update(it.res(a[1]))
        d.update(k)
        return d

    F["collections.defaultdict"] = defaultdict

    def wraps(it, a, k):
        def deco(i, b, kk):
            g, f = b[0], a[0]
            if isinstance(g, Func) and isinstance(f, (Func, Bound)):
                g.name = f.name if isinstance(f, Func) else f.func.name
            return g

        return Native("wraps", deco)

    F["functools.wraps"] = wraps

    # contextlib --------------------------------------------------------------------------------------------
    F["contextlib.suppress"] = lambda it, a, k: I.Suppress(a)

    def nullcontext(it, a, k):
        m = Mock("nullcontext")
        m.methods["__enter__"] = lambda i, *b, **kk: a[0] if a else k.get("enter_result")
        m.methods["__exit__"] = lambda i, *b, **kk: None
        return m

    F["contextlib.nullcontext"] = nullcontext

    # dataclasses -------------------------------------------------------------------------------------------
    def fields_of(it, o):
        c = it.res(o).cls
        out = []
        for k in reversed(c.mro):
            if isinstance(k, Cls):
                for f in getattr(k, "fields", None) or []:
                    f = f[0] if isinstance(f, tuple) else f
                    if f not in out:
                        out.append(f)
        return out or [n for n in it.res(o).attrs]

    def deepen(it, v, how):
        v = it.res(v)
        if isinstance(v, Obj) and isinstance(v.cls, Cls) and getattr(v.cls, "dataclass", False):
            return how(v)
        if isinstance(v, list):
            return [deepen(it, x, how) for x in v]
        return v

    F["dataclasses.asdict"] = lambda it, a, k: as_dict(it, it.res(a[0]))
    F["dataclasses.astuple"] = lambda it, a, k: as_tuple(it, it.res(a[0]))

    def as_dict(it, o):
        return {f: deepen(it, it.getattr(o, f), lambda v: as_dict(it, v)) for f in fields_of(it, o)}

    def as_tuple(it, o):
        return tuple(deepen(it, it.getattr(o, f), lambda v: as_tuple(it, v)) for f in fields_of(it, o))

    def replace(it, a, k):
        o = it.res(a[0])
        return it.call(o.cls, [], {f: k.get(f, o.attrs.get(f)) for f in fields_of(it, o)})

    F["dataclasses.replace"] = replace
    F["copy.replace"] = replace


def builtins(it, B):
    """Builtins that are analysed once per alternative of an undecided argument."""
    for n in BUILTINS:
        b = B.get(n)
        if isinstance(b, Native):
            def h(i, a, k, f=b.fn):
                return lifted(i, lambda p, q: f(i, p, q), a, k)

            B[n] = Native(n, h)
    B["bin"] = Native("bin", lambda i, a, k: bin(a[0]) if isinstance(a[0], int) else i.unknown("bin"))
    B["hex"] = Native("hex", lambda i, a, k: hex(a[0]) if isinstance(a[0], int) else i.unknown("hex"))
    B["oct"] = Native("oct", lambda i, a, k: oct(a[0]) if isinstance(a[0], int) else i.unknown("oct"))
