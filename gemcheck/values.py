"""Abstract values other than terms."""
import numpy as np
from . import terms as tm


class Undef:
    def __repr__(self):
        return "<undef>"


UNDEF = Undef()


class AbsRaise(Exception):
    """The analysed program definitely raises here."""

    def __init__(self, exc, where=None):
        super().__init__(repr(exc))
        self.exc = exc
        self.where = where


class Unsupported(Exception):
    pass


class Module:
    def __init__(self, name, path, tree, is_pkg):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg
        self.ns = {}
        self.state = "new"

    def __repr__(self):
        return "<module %s>" % self.name


class Ext:
    """Something outside the analysed packages, identified by its dotted name."""

    _cache = {}

    def __new__(cls, name):
        o = cls._cache.get(name)
        if o is None:
            o = object.__new__(cls)
            o.name = name
            cls._cache[name] = o
        return o

    def __repr__(self):
        return "<ext %s>" % self.name


class Cls:
    def __init__(self, name, bases, ns, module, node):
        self.name, self.bases, self.ns, self.module, self.node = name, bases, ns, module, node
        self.mro = _c3(self)
        self.dataclass = False
        self.subclasses = []
        for b in bases:
            if isinstance(b, Cls):
                b.subclasses.append(self)

    @property
    def qualname(self):
        return "%s.%s" % (self.module.name if self.module else "ext", self.name)

    def lookup(self, attr, after=None):
        mro = self.mro
        if after is not None:
            mro = mro[mro.index(after) + 1 :]
        for c in mro:
            if isinstance(c, Cls) and attr in c.ns:
                return c.ns[attr], c
        return None, None

    def issub(self, other):
        if isinstance(other, Ext):
            return any(isinstance(c, Ext) and same_ext(c, other) for c in self.mro)
        return other in self.mro

    def __repr__(self):
        return "<class %s>" % self.name


def same_ext(a, b):
    if a is b:
        return True
    return a.name.split(".")[0] == b.name.split(".")[0] and a.name.split(".")[-1] == b.name.split(".")[-1]


def _c3(c):
    seqs = [list(b.mro) if isinstance(b, Cls) else [b] for b in c.bases] + [list(c.bases)]
    out = [c]
    seqs = [s for s in seqs if s]
    while seqs:
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            raise Unsupported("inconsistent MRO for %s" % c.name)
        out.append(h)
        seqs = [[x for x in s if x is not h] for s in seqs]
        seqs = [s for s in seqs if s]
    return out


_obj_n = [0]


class Obj:
    def __init__(self, cls, label=None):
        _obj_n[0] += 1
        self.cls = cls
        self.attrs = {}
        self.n = _obj_n[0]
        self.label = label

    @property
    def extname(self):
        return self.cls.name if isinstance(self.cls, Ext) else None

    def __repr__(self):
        c = self.cls
        return "<%s #%d>" % (c.name, self.n)


class Func:
    def __init__(self, node, module, closure, name, cls=None, defaults=(), kw_defaults=()):
        self.node, self.module, self.closure, self.name, self.cls = node, module, closure, name, cls
        self.defaults, self.kw_defaults = list(defaults), list(kw_defaults)
        self.attrs = {}

    @property
    def qualname(self):
        return (self.cls.name + "." if self.cls else "") + self.name

    @property
    def where(self):
        return "%s:%d %s" % (short_path(self.module.path), getattr(self.node, "lineno", 0), self.qualname)

    def __repr__(self):
        return "<func %s>" % self.qualname


def short_path(p):
    i = p.find("/src/")
    return p[i + 1 :] if i >= 0 else p


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __repr__(self):
        return "<bound %r of %r>" % (self.func, self.self_)


class Prop:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class Native:
    """Analyser-side model of a callable: fn(interp, args, kwargs) -> value."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<native %s>" % self.name


class SuperObj:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class Phi:
    """Gated value cond ? a : b for values that are not scalars."""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "Phi(%s, %r, %r)" % (tm.show(self.c), self.a, self.b)


class Mock:
    """Opaque component with analyser-defined attributes and methods (an abstract interface summary)."""

    def __init__(self, name, attrs=None, methods=None, default=None, isa=()):
        self.name = name
        self.attrs = dict(attrs or {})
        self.methods = dict(methods or {})
        self.default = default
        self.isa = tuple(isa)

    def __repr__(self):
        return "<mock %s>" % self.name


def _np_op(name):
    f = getattr(float, name)

    def op(self, other):
        if isinstance(other, bool) or not isinstance(other, (int, float)):
            return NotImplemented
        try:
            r = f(self, float(other))
        except ZeroDivisionError:
            x, y = (other, self) if name.startswith("__r") else (self, other)
            with np.errstate(all="ignore"):
                r = float(np.float64(x) / np.float64(y)) if "div" in name else float(np.float64(x) ** np.float64(y))
        except OverflowError:
            r = float("inf")
        return NpFloat(r) if isinstance(r, float) else r

    return op


class NpFloat(float):
    """A concrete numpy scalar: dividing by zero yields inf or nan instead of an exception."""


for _n in ("add", "sub", "mul", "truediv", "pow"):
    for _p in ("", "r"):
        setattr(NpFloat, "__%s%s__" % (_p, _n), _np_op("__%s%s__" % (_p, _n)))
NpFloat.__neg__ = lambda self: NpFloat(-float(self))


class Cplx:
    """Complex number with term-valued parts."""

    def __init__(self, re, im=0.0):
        self.re, self.im = re, im

    @staticmethod
    def of(v):
        return v if isinstance(v, Cplx) else Cplx(v.real, v.imag) if isinstance(v, complex) else Cplx(v)

    def abs(self):
        return tm.power(tm.add(tm.mul(self.re, self.re), tm.mul(self.im, self.im)), 0.5)

    def angle(self):
        return tm.fn("atan2", self.im, self.re)

    def conj(self):
        return Cplx(self.re, tm.mul(-1.0, self.im))

    def exp(self):
        r = tm.fn("exp", self.re)
        return Cplx(tm.mul(r, tm.fn("cos", self.im)), tm.mul(r, tm.fn("sin", self.im)))

    def op(self, name, o):
        a, b = self, Cplx.of(o)
        if name == "Add":
            return Cplx(tm.add(a.re, b.re), tm.add(a.im, b.im))
        if name == "Sub":
            return Cplx(tm.add(a.re, tm.mul(-1.0, b.re)), tm.add(a.im, tm.mul(-1.0, b.im)))
        if name == "Mult":
            return Cplx(tm.add(tm.mul(a.re, b.re), tm.mul(-1.0, tm.mul(a.im, b.im))), tm.add(tm.mul(a.re, b.im), tm.mul(a.im, b.re)))
        if name == "Div":
            d = tm.add(tm.mul(b.re, b.re), tm.mul(b.im, b.im)) if not (isinstance(b.im, (int, float)) and b.im == 0) else None
            if d is None:
                return Cplx(tm.div(a.re, b.re), tm.div(a.im, b.re))
            p = a.op("Mult", b.conj())
            return Cplx(tm.div(p.re, d), tm.div(p.im, d))
        if name == "Pow" and isinstance(o, int) and 0 <= o < 9:
            r = Cplx(1.0)
            for _ in range(o):
                r = r.op("Mult", a)
            return r
        raise Unsupported("complex operator " + name)

    def __repr__(self):
        return "(%s + %sj)" % (tm.show(self.re), tm.show(self.im))


class U:
    """Unknown object or number, identified by a name."""

    def __init__(self, name, dom="real", cls=None, elem=None):
        self.name = name
        self.dom = dom
        self.attrs = {}
        self.cls = cls
        self.version = 0
        self._t = None

    @property
    def term(self):
        if self._t is None:
            self._t = tm.sym(self.name, self.dom)
        return self._t

    def __repr__(self):
        return "<U %s>" % self.name
