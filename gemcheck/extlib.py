"""Models of the Python builtins and of the external libraries the analysed packages use."""
import builtins as pybuiltins
import math
import os

import numpy as np

from . import terms as tm
from .terms import T
from .values import *
from .values import same_ext
from . import interp as I
from . import npmore

DEBUG = bool(os.environ.get("GEMCHECK_DEBUG"))

CONSTS = {
    "numpy.pi": math.pi,
    "math.pi": math.pi,
    "numpy.e": math.e,
    "math.e": math.e,
    "numpy.inf": math.inf,
    "numpy.Inf": None,
    "math.inf": math.inf,
    "numpy.nan": math.nan,
    "math.nan": math.nan,
    "numpy.newaxis": None,
    "math.tau": 2 * math.pi,
    "sys.maxsize": 2**63 - 1,
    "numpy.float64.kind": "f",
    "numpy.int64.kind": "i",
    "numpy.bool.kind": "b",
    "numpy.float64.itemsize": 8,
    "numpy.int64.itemsize": 8,
}
# attributes numpy 2.x no longer has (used by G01)
NUMPY_REMOVED = {"complex", "float", "int", "bool", "object", "str", "Inf", "NaN", "Infinity", "float_", "complex_", "product", "cumproduct", "alltrue", "sometrue", "in1d", "row_stack", "trapz", "asfarray", "mat"}


def shape_of(it, v):
    v = it.res(v)
    if isinstance(v, np.ndarray):
        return v.shape
    if isinstance(v, (list, tuple)):
        return I.arr(v).shape
    return ()


def toarr(it, v):
    v = it.res(v)
    if isinstance(v, np.ndarray):
        return v
    if isinstance(v, (list, tuple, I.IterBox, range)):
        if isinstance(v, I.IterBox):
            v = v.drain()
        return I.arr([conv(it, x) for x in v])
    if isinstance(v, I.Deque):
        return I.arr(list(v.items))
    if isinstance(v, U):
        return I.arr(v.term)
    if isinstance(v, Phi):
        return it.lift(v, lambda x: toarr(it, x))
    return I.arr(v)


def conv(it, x):
    x = it.res(x)
    if isinstance(x, (list, tuple)):
        return [conv(it, y) for y in x]
    if isinstance(x, U):
        return x.term
    return x


def unwrap0(a):
    return a[()] if isinstance(a, np.ndarray) and a.shape == () else a


class _Ragged(Exception):
    pass


class ExtLib:
    def __init__(self, it):
        self.it = it
        self.fns = {}
        self.pick = None
        self.calls = []
        self._register_numpy()
        self._register_misc()
        from . import models

        npmore.register(self)
        models.register(self)

    # ------------------------------------------------------------------ attributes of external things
    def getattr(self, o, name):
        full = o.name + "." + name
        if full in CONSTS and CONSTS[full] is not None or full == "numpy.newaxis":
            return CONSTS[full]
        if o.name in ("numpy",) and name in NUMPY_REMOVED:
            raise AbsRaise("AttributeError: module 'numpy' has no attribute '%s'" % name, self.it.loc())
        if name in ("__name__", "__qualname__"):
            return o.name.rsplit(".", 1)[-1]
        if name == "__init__":
            return Native(full, lambda it, a, k: self.ext_init(o, a, k))
        if name == "__version__":
            return "2.0.0"
        return Ext(full)

    def ext_init(self, o, a, k):
        it = self.it
        it.event("extinit", o.name, a, k)
        return None

    def base_attr(self, base, name, o):
        """Attribute inherited from an external base class."""
        it = self.it
        short = base.name
        last = short.rsplit(".", 1)[-1]
        if last == "Env":
            if name == "unwrapped":
                return o
            if name in ("metadata",):
                return {}
            if name in ("render_mode", "spec", "np_random"):
                return None
            if name in ("__init__", "close", "reset", "step", "seed", "__init_subclass__"):
                return Native("Env." + name, lambda i, a, k: None)
            return UNDEF if isinstance(o, Obj) else Ext(base.name + "." + name)
        if last in ("ABC", "Enum", "object", "Generic", "Protocol", "ABCMeta"):
            if name in ("__init__",):
                return Native("object.__init__", lambda i, a, k: None)
            return UNDEF
        if short.startswith("builtins.") and last in I.EXCEPTIONS:
            if name == "__init__":
                return Native("Exception.__init__", lambda i, a, k: None)
            return UNDEF
        if name == "__init__":
            def init(i, a, k):
                i.event("extinit", base.name, a, k, obj=o)
                if isinstance(o, Obj) and last in ("Wrapper", "ObservationWrapper", "ActionWrapper", "RewardWrapper") and a:
                    o.attrs.setdefault("env", a[0])
            return Native(base.name + ".__init__", init)
        if last in ("Wrapper", "ObservationWrapper", "ActionWrapper", "RewardWrapper") and isinstance(o, Obj) and "env" in o.attrs:
            if name == "unwrapped":
                return it.getattr(o.attrs["env"], "unwrapped")
            if name in ("observation_space", "action_space", "reward_range", "metadata", "render_mode", "spec"):
                return it.getattr(o.attrs["env"], name)
            if name in ("step", "reset", "close", "render", "seed"):
                return it.getattr(o.attrs["env"], name)
            return UNDEF
        if name.startswith("__"):
            return UNDEF
        return U("%s.%s" % (o.label or last if isinstance(o, Obj) else last, name), dom="unknown")

    def scalar_attr(self, o, name):
        it = self.it
        if name in ("T", "real"):
            return o
        if name == "imag":
            return 0
        if name in ("item", "copy", "squeeze", "conjugate", "conj"):
            return Native(name, lambda i, a, k: o)
        if name in ("astype",):
            return Native(name, lambda i, a, k: self.cast(o, a[0] if a else None))
        if name == "shape":
            return ()
        if name == "size":
            return 1
        if name == "ndim":
            return 0
        if name in ("tolist",):
            return Native(name, lambda i, a, k: o)
        if name in ("ravel", "flatten", "reshape"):
            return Native(name, lambda i, a, k: I.arr([o]))
        if name in ("any", "all"):
            return Native(name, lambda i, a, k: it.truth(o))
        if name in ("sum", "min", "max", "mean", "prod"):
            return Native(name, lambda i, a, k: o)
        if name == "is_integer":
            return Native(name, lambda i, a, k: o.is_integer() if isinstance(o, float) else True if isinstance(o, int) else tm.eq(tm.fn("floor", o), o))
        if isinstance(o, T):
            return U("%s.%s" % (tm.show(o), name), dom=o.dom if o.dom in ("unknown", "havoc") else "real")
        if hasattr(o, name):
            return getattr(o, name)
        raise AbsRaise("AttributeError: number has no attribute %r" % name, it.loc())

    def cast(self, v, dtype):
        it = self.it
        n = dtype.name if isinstance(dtype, (I.BT, Ext)) else str(dtype)
        n = n.rsplit(".", 1)[-1]
        if isinstance(v, np.ndarray):
            return I.elementwise(lambda x: self.cast(x, dtype), v)
        if isinstance(v, str):
            if n.startswith("float") or n.startswith("int"):
                try:
                    return float(v) if n.startswith("float") else int(v)
                except ValueError as e:
                    raise AbsRaise("ValueError: %s" % e, it.loc())
            return v
        if n.startswith("float") or n in ("double", "single"):
            v = it.num(v)
            if isinstance(v, T):
                return tm.ite(v, 1.0, 0.0) if tm._is_cond(v) else v
            if isinstance(v, Cplx):
                raise AbsRaise("TypeError: float of a complex number", it.loc())
            return float(v)
        if n.startswith("bool"):
            return it.truth(v)
        if n.startswith("int") or n.startswith("uint"):
            v = it.num(v)
            if isinstance(v, T):
                return tm.ite(v, 1, 0) if tm._is_cond(v) else v if v.dom in ("int", "nat") else tm.fn("trunc", v)
            return int(v) if math.isfinite(v) else v
        return v

    # arrays ------------------------------------------------------------------------------------------------
    def array_attr(self, a, name):
        it = self.it
        if name == "shape":
            return a.shape
        if name == "size":
            return a.size
        if name == "ndim":
            return a.ndim
        if name == "T":
            return a.T
        if name == "flat":
            return list(a.reshape(-1))
        if name == "dtype":
            kinds = {type(I.unnp(x)) for x in a.reshape(-1)}
            return Ext("numpy.int64" if kinds == {int} else "numpy.bool" if kinds == {bool} else "numpy.float64")
        if name in ("real", "imag"):
            return self.fns["numpy." + name](it, [a], {})
        if name == "copy":
            return Native(name, lambda i, p, k: a.copy())
        if name == "astype":
            return Native(name, lambda i, p, k: self.cast(a, p[0] if p else k.get("dtype")))
        if name in ("flatten",):
            return Native(name, lambda i, p, k: a.flatten())
        if name in ("ravel",):
            return Native(name, lambda i, p, k: a.reshape(-1))
        if name == "reshape":
            def rs(i, p, k):
                shp = p[0] if len(p) == 1 else tuple(p)
                try:
                    return a.reshape(shp)
                except ValueError as e:
                    raise AbsRaise("ValueError: %s" % e, i.loc())
            return Native(name, rs)
        if name == "squeeze":
            return Native(name, lambda i, p, k: a.squeeze())
        if name == "transpose":
            return Native(name, lambda i, p, k: a.transpose(*p))
        if name == "tolist":
            return Native(name, lambda i, p, k: a.tolist())
        if name == "item":
            return Native(name, lambda i, p, k: i.res(a.reshape(-1)[p[0] if p else 0]))
        if name == "fill":
            def fill(i, p, k):
                i.log_arr(a)
                a.reshape(-1)[:] = [p[0]] * a.size
            return Native(name, fill)
        if name == "sort":
            def srt(i, p, k):
                i.log_arr(a)
                a[...] = I.arr(sort_terms(i, list(a)))
            return Native(name, srt)
        if name in ("tobytes", "view", "setflags", "byteswap"):
            return U("array." + name, dom="unknown")
        if "numpy." + name in self.fns or name in npmore.STRUCTURAL or name in ("argpartition", "partition", "ptp", "nonzero"):
            return Native("ndarray." + name, lambda i, p, k: self.call(Ext("numpy." + name), [a] + list(p), k))
        raise AbsRaise("AttributeError: 'numpy.ndarray' object has no attribute %r" % name, it.loc())

    # containers --------------------------------------------------------------------------------------------
    def container_attr(self, o, name):
        it = self.it
        if isinstance(o, I.Deque):
            return self.deque_attr(o, name)
        if isinstance(o, I.IterBox):
            if name == "__next__":
                return Native(name, lambda i, a, k: next_(i, [o], {}))
            return U("iter." + name, dom="unknown")
        if isinstance(o, list):
            m = getattr(self, "list_" + name, None)
            if m is not None:
                return Native("list." + name, lambda i, a, k: m(o, a, k))
        elif isinstance(o, dict):
            m = getattr(self, "dict_" + name, None)
            if m is not None:
                return Native("dict." + name, lambda i, a, k: m(o, a, k))
        elif isinstance(o, set):
            m = getattr(self, "set_" + name, None)
            if m is not None:
                return Native("set." + name, lambda i, a, k: m(o, a, k))
        elif isinstance(o, tuple):
            if name in ("index", "count"):
                m = getattr(self, "list_" + name)
                return Native("tuple." + name, lambda i, a, k: m(list(o), a, k))
        if isinstance(o, str) and hasattr(o, name):
            def call(i, a, k):
                a = [x.drain() if isinstance(x, I.IterBox) else x for x in a]
                try:
                    if any(isinstance(x, (T, U, Phi)) for x in a):
                        if name == "format":
                            return o
                        return U("str." + name, dom="unknown")
                    return getattr(o, name)(*a, **k)
                except (TypeError, ValueError, IndexError, KeyError) as e:
                    raise AbsRaise("%s: %s" % (type(e).__name__, e), i.loc())
            return Native("str." + name, call)
        if hasattr(o, name):
            attr = getattr(o, name)
            if not callable(attr):
                return attr
            def call2(i, a, k):
                try:
                    return attr(*a, **k)
                except Exception as e:
                    raise AbsRaise("%s: %s" % (type(e).__name__, e), i.loc())
            return Native(type(o).__name__ + "." + name, call2)
        raise AbsRaise("AttributeError: '%s' object has no attribute '%s'" % (type(o).__name__, name), it.loc())

    def list_append(self, o, a, k):
        self.it.log_list(o)
        o.append(a[0])

    def list_extend(self, o, a, k):
        items = self.it.iterate(a[0])
        if items is None:
            self.it.degrade("extend unknown")
            return
        self.it.log_list(o)
        o.extend(items)

    def list_insert(self, o, a, k):
        self.it.log_list(o)
        o.insert(a[0], a[1])

    def list_pop(self, o, a, k):
        if not o:
            raise AbsRaise("IndexError: pop from empty list", self.it.loc())
        self.it.log_list(o)
        try:
            return o.pop(*a)
        except IndexError:
            raise AbsRaise("IndexError: pop index out of range", self.it.loc())

    def list_clear(self, o, a, k):
        self.it.log_list(o)
        o.clear()

    def list_copy(self, o, a, k):
        return list(o)

    def list_reverse(self, o, a, k):
        self.it.log_list(o)
        o.reverse()

    def list_sort(self, o, a, k):
        self.it.log_list(o)
        o[:] = sorted_(self.it, [list(o)], k)

    def list_index(self, o, a, k):
        it = self.it
        for i, x in enumerate(o):
            c = it.truth(it.equal(x, a[0]))
            if c is True:
                return i
            if c is not False:
                return tm.fn("index_of", tm.fresh("idx", "int"))
        raise AbsRaise("ValueError: %r is not in list" % (a[0],), it.loc())

    def list_count(self, o, a, k):
        it = self.it
        n = 0
        for x in o:
            c = it.truth(it.equal(x, a[0]))
            n = n + (1 if c is True else 0 if c is False else tm.ite(c, 1, 0))
        return n

    def list_remove(self, o, a, k):
        i = self.list_index(o, a, k)
        self.it.log_list(o)
        if isinstance(i, int):
            del o[i]
        else:
            self.it.degrade("remove symbolic")

    def dict_get(self, o, a, k):
        d = a[1] if len(a) > 1 else k.get("default")
        key = self.it.hashkey(a[0])
        if isinstance(key, U):
            return self.it.unknown("dictget", "dict.get unknown key")
        return self.it.res(o.get(key, d))

    def dict_keys(self, o, a, k):
        return list(o.keys())

    def dict_values(self, o, a, k):
        return list(o.values())

    def dict_items(self, o, a, k):
        return [(x, y) for x, y in o.items()]

    def dict_copy(self, o, a, k):
        return dict(o)

    def dict_update(self, o, a, k):
        src = {}
        if a:
            v = self.it.res(a[0])
            if isinstance(v, dict):
                src.update(v)
            else:
                items = self.it.iterate(v)
                if items is None:
                    self.it.degrade("dict.update unknown")
                else:
                    src.update({x: y for x, y in items})
        src.update(k)
        for kk, vv in src.items():
            self.it.log_dict(o, kk)
            o[kk] = vv

    def dict_pop(self, o, a, k):
        if a[0] in o:
            self.it.log_dict(o, a[0])
            return o.pop(a[0])
        if len(a) > 1:
            return a[1]
        raise AbsRaise("KeyError: %r" % (a[0],), self.it.loc())

    def dict_setdefault(self, o, a, k):
        if a[0] not in o:
            self.it.log_dict(o, a[0])
            o[a[0]] = a[1] if len(a) > 1 else None
        return o[a[0]]

    def dict_clear(self, o, a, k):
        for kk in list(o):
            self.it.log_dict(o, kk)
            del o[kk]

    def dict_popitem(self, o, a, k):
        kk = list(o)[-1]
        self.it.log_dict(o, kk)
        return (kk, o.pop(kk))

    def set_add(self, o, a, k):
        self.it.log_set(o)
        o.add(a[0])

    def set_update(self, o, a, k):
        self.it.log_set(o)
        for x in a:
            o.update(self.it.iterate(x) or [])

    def set_discard(self, o, a, k):
        self.it.log_set(o)
        o.discard(a[0])

    def set_remove(self, o, a, k):
        self.it.log_set(o)
        o.discard(a[0])

    def deque_attr(self, o, name):
        it = self.it
        L = o.items

        def m(f):
            return Native("deque." + name, lambda i, a, k: f(*a, **k))

        def append(x):
            it.log_list(L)
            if isinstance(o.maxlen, int) and len(L) >= o.maxlen:
                if o.maxlen == 0:
                    return
                del L[0]
            L.append(x)

        def appendleft(x):
            it.log_list(L)
            if isinstance(o.maxlen, int) and len(L) >= o.maxlen:
                if o.maxlen == 0:
                    return
                del L[-1]
            L.insert(0, x)

        def popleft():
            if not L:
                raise AbsRaise("IndexError: pop from an empty deque", it.loc())
            it.log_list(L)
            return L.pop(0)

        def pop():
            if not L:
                raise AbsRaise("IndexError: pop from an empty deque", it.loc())
            it.log_list(L)
            return L.pop()

        def extend(xs):
            for x in it.iterate(xs) or []:
                append(x)

        def clear():
            it.log_list(L)
            L.clear()

        def rotate(n=1):
            it.log_list(L)
            if L:
                n = n % len(L)
                L[:] = L[len(L) - n :] + L[: len(L) - n]

        if name == "maxlen":
            return o.maxlen
        d = dict(append=append, appendleft=appendleft, popleft=popleft, pop=pop, extend=extend, clear=clear, rotate=rotate, copy=lambda: I.Deque(list(L), o.maxlen))
        if name in d:
            return m(d[name])
        return it.unknown("deque." + name, "deque." + name)

    # ------------------------------------------------------------------ ext objects
    def new(self, cls, **attrs):
        o = Obj(cls if isinstance(cls, Ext) else Ext(cls))
        o.attrs.update(attrs)
        return o

    def obj_attr(self, o, name):
        it = self.it
        n = o.extname
        last = n.rsplit(".", 1)[-1]
        if last == "SeedSequence":
            return self.ss_attr(o, name)
        if last == "Generator" and "key" in o.attrs:
            return Native("Generator." + name, lambda i, a, k: self.draw(o, name, a, k))
        if name in o.attrs:
            return o.attrs[name]
        if name == "__class__":
            return o.cls
        if last in ("Box", "Discrete", "MultiDiscrete", "Tuple", "MultiBinary", "Dict"):
            if name == "contains":
                return Native("space.contains", lambda i, a, k: self.space_contains(o, a[0]))
            if name == "sample":
                return Native("space.sample", lambda i, a, k: self.space_sample(o))
            if name == "seed":
                return Native("space.seed", lambda i, a, k: None)
            if name == "dtype":
                return Ext("numpy.float64")
            if name == "start":
                return 0
            if name == "spaces" and last == "Tuple":
                return o.attrs["spaces"]
            if name == "is_bounded":
                return Native("space.is_bounded", lambda i, a, k: True)
            if hasattr(it, "strict_spaces"):
                pass
            raise AbsRaise("AttributeError: %s has no attribute %s" % (last, name), it.loc())
        u = U("%s.%s" % (o.label or last, name))
        o.attrs[name] = u
        return u

    def obj_call(self, o, args, kwargs):
        it = self.it
        n = o.extname
        if n == "functools.partial":
            kw = dict(o.attrs["kw"])
            kw.update(kwargs)
            return it.call(o.attrs["f"], list(o.attrs["a"]) + list(args), kw)
        if n == "scipy.signal.tf":
            pass
        it.event("call", o.label or n, args, kwargs, obj=o)
        return U("%s()" % (o.label or n))

    def space_contains(self, o, x):
        it = self.it
        last = o.extname.rsplit(".", 1)[-1]
        if last == "Discrete":
            x = it.res(x)
            if isinstance(x, np.ndarray):
                x = x.reshape(-1)[0] if x.size == 1 else None
            if x is None or isinstance(x, (str, list, tuple)):
                return False
            x = it.num(x)
            if isinstance(x, float):
                return False
            return tm.and_(tm.le(0, x), tm.lt(x, o.attrs["n"]))
        if last == "MultiDiscrete":
            items = it.iterate(x)
            nv = list(o.attrs["nvec"])
            if items is None:
                return tm.sym("contains(%r)" % (x,), "bool")
            if len(items) != len(nv):
                return False
            return tm.and_(True, *[c for v, n in zip(items, nv) for c in (tm.le(0, it.num(v)), tm.lt(it.num(v), n))])
        if last == "Box":
            a = toarr(it, x)
            if a.shape != o.attrs["low"].shape:
                return False
            return tm.and_(True, *[c for v, l, h in zip(a.reshape(-1), o.attrs["low"].reshape(-1), o.attrs["high"].reshape(-1)) for c in (tm.le(l, it.num(v)), tm.le(it.num(v), h))])
        return tm.sym("contains(%r,%r)" % (o, x), "bool")

    def space_sample(self, o):
        self.it.event("global_random", "space.sample", [], {}, obj=o)
        return U("sample#%d" % len(self.it.events))

    # ------------------------------------------------------------------ random model
    def fresh_key(self):
        self.it.rng_fresh += 1
        return ("entropy", self.it.rng_fresh)

    def make_ss(self, a, k):
        seed = self.it.res(a[0] if a else k.get("entropy"))
        if seed is None:
            key = self.fresh_key()
            self.it.event("fresh_entropy", "SeedSequence", [key])
        elif isinstance(seed, Phi):
            return self.it.lift(seed, lambda s: self.make_ss([s], {}))
        else:
            key = ("ss", keyof(seed))
            sk = k.get("spawn_key")
            if sk is not None:
                key = key + (keyof(sk),)
        o = self.new("numpy.random.SeedSequence", key=key, n_children_spawned=0, entropy_arg=seed)
        return o

    def ss_attr(self, o, name):
        it = self.it
        if name == "spawn":
            def spawn(i, a, k):
                n = i.num(a[0] if a else k.get("n_children"))
                c = o.attrs["n_children_spawned"]
                i.log_dict(o.attrs, "n_children_spawned")
                if isinstance(n, T):
                    o.attrs["n_children_spawned"] = tm.add(c, n)
                    return U("spawn(%r)" % (o.attrs["key"],), dom="unknown")
                o.attrs["n_children_spawned"] = c + n if not isinstance(c, T) else tm.add(c, n)
                out = []
                for j in range(n):
                    idx = c + j if not isinstance(c, T) else tm.add(c, j)
                    ch = self.new("numpy.random.SeedSequence", key=o.attrs["key"] + (("child", idx),), n_children_spawned=0)
                    out.append(ch)
                return out
            return Native("SeedSequence.spawn", spawn)
        if name == "entropy":
            return tm.fn("entropy", keystr(o.attrs["key"]))
        if name == "pool":
            return I.arr([tm.fn("pool", keystr(o.attrs["key"]), i) for i in range(4)])
        if name == "spawn_key":
            return tuple(x for x in o.attrs["key"] if x[0] == "child")
        if name == "generate_state":
            return Native(name, lambda i, a, k: I.arr([tm.fn("state", keystr(o.attrs["key"]), j) for j in range(a[0])]))
        if name == "n_children_spawned":
            return o.attrs[name]
        return it.unknown("ss." + name, "SeedSequence." + name)

    def make_rng(self, a, k):
        it = self.it
        s = it.res(a[0] if a else k.get("seed"))
        if isinstance(s, Phi):
            return it.lift(s, lambda x: self.make_rng([x], {}))
        if s is None:
            key = self.fresh_key()
            it.event("fresh_entropy", "default_rng", [key])
        elif isinstance(s, Obj) and s.extname and s.extname.endswith("SeedSequence"):
            key = s.attrs["key"]
        elif isinstance(s, Obj) and s.extname and s.extname.endswith("Generator"):
            return s
        else:
            key = ("rng", keyof(s))
        return self.new("numpy.random.Generator", key=key, count=0)

    def draw(self, g, method, a, k):
        it = self.it
        if method in ("spawn",):
            return [self.new("numpy.random.Generator", key=g.attrs["key"] + (("gspawn", i, g.attrs["count"]),), count=0) for i in range(a[0])]
        key = g.attrs["key"]
        cnt = g.attrs["count"]
        it.log_dict(g.attrs, "count")
        g.attrs["count"] = cnt + 1 if not isinstance(cnt, T) else tm.add(cnt, 1)
        e = it.event("draw", method, [I.snap(x) for x in a], {x: I.snap(y) for x, y in k.items()}, obj=g)
        e.result = (key, cnt)
        self.last_choice = None
        v = self.draw_value((keystr(key), cnt), method, a, k)
        e.choice = self.last_choice
        return v

    DRAW_ARGS = {
        "uniform": ("low", "high", "size"),
        "normal": ("loc", "scale", "size"),
        "triangular": ("left", "mode", "right", "size"),
        "integers": ("low", "high", "size"),
        "random": ("size",),
        "rand": (),
        "random_sample": ("size",),
        "standard_normal": ("size",),
        "laplace": ("loc", "scale", "size"),
        "choice": ("a", "size", "replace", "p"),
        "exponential": ("scale", "size"),
        "randint": ("low", "high", "size"),
    }

    def draw_value(self, tag, method, a, k):
        it = self.it
        names = self.DRAW_ARGS.get(method)
        p = {}
        if names:
            for n, v in zip(names, a):
                p[n] = v
        p.update(k)
        size = it.res(p.get("size"))
        if method in ("rand",) and a:
            size = tuple(a) if len(a) > 1 else a[0]
        get = lambda n, d: p[n] if p.get(n) is not None else d

        def one(i):
            t = (tag[0], tag[1], i)
            if method in ("random", "rand", "random_sample"):
                return tm.fn("u01", *t)
            if method == "uniform":
                lo, hi = get("low", 0.0), get("high", 1.0)
                return it.binop("Add", lo, it.binop("Mult", it.binop("Sub", hi, lo), tm.fn("u01", *t)))
            if method == "triangular":
                lo, mo, hi = it.num(get("left", 0)), it.num(get("mode", 0)), it.num(get("right", 1))
                u = tm.fn("u01", *(t + (mo,)))
                return lo + (hi - lo) * u if isinstance(lo, T) or isinstance(hi, T) else lo + u * (hi - lo)
            if method in ("normal", "laplace"):
                lo, sc = it.num(get("loc", 0.0)), it.num(get("scale", 1.0))
                return tm.add(lo, tm.mul(sc, tm.fn("std_" + method, *t)))
            if method == "standard_normal":
                return tm.fn("std_normal", *t)
            if method in ("integers", "randint"):
                lo, hi = it.num(get("low", 0)), p.get("high")
                if hi is None:
                    lo, hi = 0, lo
                n = tm.add(it.num(hi), tm.mul(-1, lo))
                if n == 1:
                    return lo
                return tm.add(lo, tm.fn("index", n, *t))
            if method == "choice":
                av = it.res(p.get("a"))
                prob = p.get("p")
                extra = tuple(it.num(x) for x in (it.iterate(prob) or ())) if prob is not None else ()
                if isinstance(av, (int, T)):
                    return tm.fn("index", av, *(t + extra))
                items = it.iterate(av)
                if items is None:
                    return tm.fn("choice", *t)
                if self.pick is not None:  # one given sequence of outcomes instead of all
                    return items[self.pick(len(items))]
                ix = tm.fn("index", len(items), *(t + extra))
                self.last_choice = (ix, items, list(extra))
                return it.symindex(items, ix)
            return tm.fn("draw_" + method, *(t + tuple(it.num(x) for x in a if I.is_scalar(x))))

        if method in ("shuffle", "permutation"):
            x = it.res(a[0])
            return it.unknown("perm", "permutation")
        if size is None:
            return one(0)
        if isinstance(size, T) or isinstance(size, U):
            u = U("draws(%s,%s,%s)" % (tag[0], tag[1], method))
            u.size = size
            return u
        if isinstance(size, (list, tuple)):
            shp = tuple(size)
            if any(isinstance(x, (T, U)) for x in shp):
                return U("draws(%s,%s,%s)" % (tag[0], tag[1], method))
        else:
            shp = (int(size),)
        out = np.empty(shp, dtype=object)
        fl = out.reshape(-1)
        for i in range(fl.size):
            fl[i] = one(i)
        return out

    # ------------------------------------------------------------------ calls of external functions
    def call(self, f, args, kwargs):
        it = self.it
        n = f.name
        if n.startswith("builtins."):
            o = Obj(f)
            o.attrs["args"] = tuple(args)
            return o
        if npmore.pure(n):
            return npmore.lifted(it, lambda a, k: self.call_one(n, f, a, k), args, kwargs)
        return self.call_one(n, f, args, kwargs)

    def call_one(self, n, f, args, kwargs):
        it = self.it
        h = self.fns.get(n)
        if h is None and "." in n:
            head, tail = n.split(".", 1)[0], n.rsplit(".", 1)[-1]
            if head in ("gymnasium", "gym"):
                h = self.fns.get("gymnasium.spaces." + tail)
            elif head == "math":
                h = self.fns.get("numpy." + {"fabs": "abs", "atan2": "arctan2", "atan": "arctan", "asin": "arcsin", "acos": "arccos", "fmod": "fmod", "pow": "power", "isnan": "isnan"}.get(tail, tail))
        self.calls.append(n)
        if h is not None:
            try:
                return h(it, list(args), dict(kwargs))
            except (IndexError, KeyError, TypeError, AttributeError):
                a2, k2 = positional(n, args, kwargs)
                if len(k2) == len(kwargs) and DEBUG:
                    raise
                try:
                    return h(it, a2, k2)
                except (IndexError, KeyError, TypeError, AttributeError, ValueError) as e:
                    if DEBUG:
                        raise
                    return it.unknown(n, "call of %s not modelled (%s)" % (n, type(e).__name__))
        if n.startswith("numpy.random."):
            m = n.rsplit(".", 1)[-1]
            e = it.event("global_random", n, args, kwargs)
            if m in ("seed",):
                return None
            if m == "RandomState":
                return self.new("numpy.random.Generator", key=("RandomState", keyof(args[0]) if args else "entropy"), count=0)
            return self.draw_value(("global", tm.fresh("global_random", "real")), m, args, kwargs)
        if n.startswith("random."):
            it.event("global_random", n, args, kwargs)
            return tm.fresh("global_random")
        r = npmore.general(self, n, args, kwargs)
        if r is not UNDEF:
            return r
        if n.startswith(("numpy.", "math.", "operator.", "itertools.", "functools.", "collections.", "contextlib.", "scipy.")):
            return it.unknown(n, "unmodelled " + n)
        it.event("extcall", n, [I.snap(a) for a in args], {k: I.snap(v) for k, v in kwargs.items()})
        o = Obj(f, label="%s#%d" % (n.rsplit(".", 1)[-1], len(it.events)))
        return U("%s()#%d" % (n, len(it.events)), dom="unknown")

    def btype_attr(self, t, name):
        if name in ("__name__", "__qualname__"):
            return t.name
        if t.name == "dict" and name == "fromkeys":
            return Native("dict.fromkeys", lambda i, a, k: {x: (a[1] if len(a) > 1 else None) for x in i.iterate(a[0])})
        if name in ("__init__", "__new__"):
            return Native(t.name + name, lambda i, a, k: None)
        if t.name == "str" and name == "join":
            return Native("str.join", lambda i, a, k: a[0].join(i.iterate(a[1])))
        if t.types and hasattr(t.types[0], name):
            return Native(t.name + "." + name, lambda i, a, k: i.call(i.getattr(a[0], name), a[1:], k))
        return U(t.name + "." + name, dom="unknown")

    def btype_call(self, t, args, kwargs):
        it = self.it
        n = t.name
        a = [it.res(x) for x in args]
        if any(isinstance(x, Phi) for x in a[:1]) and n != "type":
            return it.lift(a[0], lambda x: self.btype_call(t, [x] + a[1:], kwargs))
        if n == "float":
            if not a:
                return 0.0
            if isinstance(a[0], str):
                return float(a[0])
            return self.cast(a[0] if not isinstance(a[0], np.ndarray) else it.num(a[0]), t)
        if n == "int":
            if not a:
                return 0
            if isinstance(a[0], str):
                try:
                    return int(a[0])
                except ValueError as e:
                    raise AbsRaise("ValueError: %s" % e, it.loc())
            return self.cast(it.num(a[0]), t)
        if n == "bool":
            return it.truth(a[0]) if a else False
        if n == "str":
            if not a:
                return ""
            v = it.text(a[0])
            if isinstance(v, (T, U, Obj, Phi)):
                return "{%s}" % (tm.show(v) if isinstance(v, T) else v)
            return str(v)
        if n in ("list", "tuple", "set", "frozenset"):
            if not a:
                return {"list": [], "tuple": (), "set": set(), "frozenset": frozenset()}[n]
            if isinstance(a[0], I.SymRange) or isinstance(a[0], (U, T)):
                return a[0] if isinstance(a[0], U) else it.unknown(n, n + " of unknown")
            items = it.iterate(a[0])
            if items is None:
                return it.unknown(n, n + " of unknown")
            if n == "list":
                return list(items)
            if n == "tuple":
                return tuple(items)
            try:
                if n == "set":
                    out = set()
                    for x in items:
                        out.add(unnum(x))
                    return out
                return frozenset(items)
            except TypeError:
                return it.unknown("set", "unhashable")
        if n == "dict":
            d = {}
            if a:
                if isinstance(a[0], dict):
                    d.update(a[0])
                else:
                    items = it.iterate(a[0])
                    if items is None:
                        return it.unknown("dict", "dict of unknown")
                    for kv in items:
                        kk, vv = it.iterate(kv)
                        d[it.hashkey(kk)] = vv
            d.update(kwargs)
            return d
        if n == "type":
            if len(a) == 1:
                return typeof(it, a[0])
            if len(a) == 3:
                return Cls(a[0], list(a[1]), dict(a[2]), it.stack[-1].module, None)
        if n == "object":
            return Obj(Ext("builtins.object"))
        if n == "slice":
            return slice(*a)
        if n == "range":
            return self._range(a)
        if n == "complex":
            v = [it.num(x) for x in a] + [it.num(kwargs[x]) for x in ("real", "imag") if x in kwargs]
            if any(isinstance(x, str) for x in a):
                return Cplx.of(complex(*a))
            r = Cplx.of(v[0]) if v else Cplx(0.0)
            return r.op("Add", Cplx(0.0, 1.0).op("Mult", v[1])) if len(v) > 1 else r
        return it.unknown(n, n)

    def mgrid(self, ix):
        """numpy.mgrid: one linspace (complex step) or range per axis, spread over the common grid."""
        it = self.it
        axes = []
        for x in ix if isinstance(ix, tuple) else (ix,):
            lo, hi, st = (it.num(v) if v is not None else d for v, d in ((x.start, 0), (x.stop, None), (x.step, 1)))
            if isinstance(st, (Cplx, complex)):
                n = Cplx.of(st)
                if isinstance(n.im, T) or isinstance(n.re, T):
                    return it.unknown("mgrid", "symbolic grid size")
                axes.append([it.num(v) for v in self.fns["numpy.linspace"](it, [lo, hi, int(math.hypot(n.re, n.im))], {})])
            elif any(isinstance(v, T) for v in (lo, hi, st)):
                return it.unknown("mgrid", "symbolic grid")
            else:
                axes.append(list(np.arange(lo, hi, st)))
        shape = tuple(len(x) for x in axes)
        out = np.empty((len(axes),) + shape, dtype=object)
        for k, x in enumerate(axes):
            for i in np.ndindex(shape):
                out[(k,) + i] = x[i[k]]
        return out if isinstance(ix, tuple) else out[0]

    def _range(self, a):
        it = self.it
        v = [I.unnp(it.num(x)) for x in a]
        if any(isinstance(x, T) for x in v):
            return I.SymRange(*v)
        if any(isinstance(x, float) for x in v):
            raise AbsRaise("TypeError: 'float' object cannot be interpreted as an integer", it.loc())
        return range(*v)

    # ------------------------------------------------------------------ numpy
    def _register_numpy(self):
        F = self.fns

        def reg(*names):
            def d(f):
                for n in names:
                    F["numpy." + n] = f
                return f

            return d

        def un(name, f):
            def h(it, a, k):
                x = it.res(a[0])
                if isinstance(x, Phi):
                    return it.lift(x, lambda y: h(it, [y] + a[1:], k))
                out = k.get("out") if k.get("out") is not None else (a[1] if len(a) > 1 and isinstance(a[1], np.ndarray) else None)
                r = I.elementwise(lambda v: f(it, v), toarr(it, x)) if isinstance(x, (np.ndarray, list, tuple)) else f(it, x)
                if isinstance(out, tuple):
                    out = out[0]
                if isinstance(out, np.ndarray):
                    it.log_arr(out)
                    out[...] = r
                    return out
                return r

            F["numpy." + name] = h

        tf = lambda nm: (lambda it, v: tm.fn(nm, it.num(v)))
        for n, m in dict(sin="sin", cos="cos", tan="tan", exp="exp", log="log", arctan="atan", arcsin="asin", arccos="acos", sinh="sinh", cosh="cosh", tanh="tanh", sign="sign", floor="floor", ceil="ceil", sqrt="sqrt", trunc="trunc", fix="trunc", rint="round").items():
            un(n, tf(m))
        cabs = lambda it, v: (lambda x: x.abs() if isinstance(x, Cplx) else tm.fn("abs", x))(it.num(v))
        un("abs", cabs)
        un("absolute", cabs)
        un("fabs", cabs)
        un("angle", lambda it, v: Cplx.of(it.num(v)).angle())
        un("imag", lambda it, v: Cplx.of(it.num(v)).im)
        un("conj", lambda it, v: (lambda x: x.conj() if isinstance(x, Cplx) else x)(it.num(v)))
        un("conjugate", lambda it, v: (lambda x: x.conj() if isinstance(x, Cplx) else x)(it.num(v)))
        un("negative", lambda it, v: it.unop("USub", v))
        un("square", lambda it, v: it.binop("Mult", v, v))
        un("reciprocal", lambda it, v: it.binop("Div", 1, v))
        un("real", lambda it, v: (lambda x: x.re if isinstance(x, Cplx) else x)(it.num(v)))
        un("exp", lambda it, v: (lambda x: x.exp() if isinstance(x, Cplx) else tm.fn("exp", x))(it.num(v)))
        un("float64", lambda it, v: self.cast(v, Ext("numpy.float64")))
        un("float32", lambda it, v: self.cast(v, Ext("numpy.float64")))
        un("int64", lambda it, v: self.cast(v, Ext("numpy.int64")))
        un("bool_", lambda it, v: it.truth(v))
        un("deg2rad", lambda it, v: it.binop("Mult", v, math.pi / 180))
        un("radians", lambda it, v: it.binop("Mult", v, math.pi / 180))
        un("rad2deg", lambda it, v: it.binop("Mult", v, 180 / math.pi))
        un("isnan", lambda it, v: math.isnan(v) if isinstance(v, float) else False)
        un("isinf", lambda it, v: math.isinf(v) if isinstance(v, float) else False)
        un("isfinite", lambda it, v: math.isfinite(v) if isinstance(v, float) else True)
        un("logical_not", lambda it, v: tm.not_(it.truth(v)))
        un("log10", lambda it, v: it.binop("Mult", tm.fn("log", it.num(v)), 1 / math.log(10)))
        un("log2", lambda it, v: it.binop("Mult", tm.fn("log", it.num(v)), 1 / math.log(2)))
        un("cbrt", lambda it, v: tm.fn("cbrt", it.num(v)))
        un("nan_to_num", lambda it, v: v)

        def bi(name, f):
            def h(it, a, k):
                x, y = it.res(a[0]), it.res(a[1])
                if isinstance(x, Phi):
                    return it.lift(x, lambda z: h(it, [z] + a[1:], k))
                if isinstance(y, Phi):
                    return it.lift(y, lambda z: h(it, [x, z] + a[2:], k))
                out = k.get("out")
                if isinstance(x, (np.ndarray, list, tuple)) or isinstance(y, (np.ndarray, list, tuple)):
                    try:
                        r = I.elementwise(lambda p, q: f(it, p, q), toarr(it, x), toarr(it, y))
                    except ValueError as e:
                        raise AbsRaise("ValueError: %s" % e, it.loc())
                else:
                    r = f(it, x, y)
                if isinstance(out, tuple):
                    out = out[0]
                if isinstance(out, np.ndarray):
                    it.log_arr(out)
                    out[...] = r
                    return out
                return r

            F["numpy." + name] = h

        op = lambda o: (lambda it, x, y: it.scalar_op(o, x, y))
        for n, o in dict(add="Add", subtract="Sub", multiply="Mult", divide="Div", true_divide="Div", power="Pow", float_power="Pow", mod="Mod", remainder="Mod", floor_divide="FloorDiv").items():
            bi(n, op(o))
        bi("minimum", lambda it, x, y: tm.minimum(it.num(x), it.num(y)))
        bi("maximum", lambda it, x, y: tm.maximum(it.num(x), it.num(y)))
        bi("fmin", lambda it, x, y: tm.minimum(it.num(x), it.num(y)))
        bi("fmax", lambda it, x, y: tm.maximum(it.num(x), it.num(y)))
        bi("arctan2", lambda it, x, y: tm.fn("atan2", it.num(x), it.num(y)))
        bi("hypot", lambda it, x, y: tm.fn("sqrt", it.num(x) ** 2 + it.num(y) ** 2))
        bi("less", lambda it, x, y: it.compare("Lt", x, y))
        bi("less_equal", lambda it, x, y: it.compare("LtE", x, y))
        bi("greater", lambda it, x, y: it.compare("Gt", x, y))
        bi("greater_equal", lambda it, x, y: it.compare("GtE", x, y))
        bi("equal", lambda it, x, y: it.compare("Eq", x, y))
        bi("not_equal", lambda it, x, y: it.compare("NotEq", x, y))
        bi("logical_and", lambda it, x, y: tm.and_(it.truth(x), it.truth(y)))
        bi("logical_or", lambda it, x, y: tm.or_(it.truth(x), it.truth(y)))
        bi("logical_xor", lambda it, x, y: tm.ite(tm.cond(it.truth(x)), tm.not_(it.truth(y)), it.truth(y)))
        bi("copysign", lambda it, x, y: it.binop("Mult", tm.fn("abs", it.num(x)), tm.ite(tm.lt(it.num(y), 0), -1, 1)))
        bi("fmod", lambda it, x, y: tm.fn("fmod", it.num(x), it.num(y)) if isinstance(it.num(x), T) or isinstance(it.num(y), T) else math.fmod(it.num(x), it.num(y)))
        bi("isclose", lambda it, x, y: tm.eq(it.num(x), it.num(y)))
        bi("heaviside", lambda it, x, y: tm.ite(tm.lt(it.num(x), 0), 0, tm.ite(tm.eq(it.num(x), 0), it.num(y), 1)))

        def dt(it, a, r, k, pos=1):
            d = k.get("dtype") if k.get("dtype") is not None else (a[pos] if len(a) > pos else None)
            if d is not None and isinstance(d, (I.BT, Ext, str)):
                return self.cast(r, d)
            return r

        def _nested_shape(it, x):
            """Shape of nested sequences, None if unknown; raises _Ragged if the parts certainly differ."""
            x = it.res(x)
            if isinstance(x, np.ndarray):
                return x.shape
            if isinstance(x, (list, tuple)):
                parts = [_nested_shape(it, y) for y in x]
                known = {p for p in parts if p is not None}
                if len(known) > 1:
                    raise _Ragged()
                return None if None in parts else (len(x),) + (parts[0] if parts else ())
            return () if isinstance(x, (bool, int, float, T, np.generic)) else None

        def ragged(it, x):
            try:
                _nested_shape(it, x)
            except _Ragged:
                return True
            return False

        @reg("array", "asarray", "asanyarray", "ascontiguousarray", "atleast_1d", "copy", "asfortranarray")
        def array(it, a, k):
            x = it.res(a[0])
            if isinstance(x, Phi):
                return it.lift(x, lambda y: array(it, [y] + a[1:], k))
            if isinstance(x, U):
                return x
            if isinstance(x, (list, tuple)) and k.get("dtype") is None and len(a) < 2 and ragged(it, x):
                raise AbsRaise("ValueError: setting an array element with a sequence, inhomogeneous shape", it.loc())
            r = toarr(it, x)
            nm = k.get("__name__")
            if isinstance(x, np.ndarray) and not k.get("_alias"):
                r = r.copy()
            if isinstance(x, (list, tuple)) and r.size == 0 and k.get("dtype") is None and len(a) < 2:
                return np.zeros(r.shape)  # numpy makes a float array here; bitwise operations on it fail
            return dt(it, a, r, k)

        def asarray(it, a, k):
            x = it.res(a[0])
            if isinstance(x, np.ndarray) and len(a) == 1 and not k.get("copy"):
                return x
            return array(it, a, k)

        F["numpy.asarray"] = F["numpy.asanyarray"] = F["numpy.ascontiguousarray"] = asarray

        def atleast_1d(it, a, k):
            x = it.res(a[0])
            if isinstance(x, np.ndarray) and x.ndim >= 1:
                return x
            r = toarr(it, x)
            return r.reshape(1) if r.ndim == 0 else r

        F["numpy.atleast_1d"] = atleast_1d

        @reg("atleast_2d")
        def atleast_2d(it, a, k):
            r = toarr(it, a[0])
            while r.ndim < 2:
                r = r[None]
            return r

        def shp(it, s):
            s = it.res(s)
            if isinstance(s, (list, tuple)):
                return tuple(I.unnp(it.num(x)) for x in s)
            if isinstance(s, np.ndarray):
                return tuple(int(x) for x in s.reshape(-1))
            return (I.unnp(it.num(s)),)

        def filled(it, s, v, k=None):
            s = shp(it, s)
            if any(isinstance(x, T) for x in s):
                u = U("full(%s)" % ",".join(tm.show(x) for x in s))
                u.fillval, u.size = v, s
                return u
            out = np.empty(s, dtype=object)
            out.reshape(-1)[:] = [v] * out.size
            return out

        F["numpy.zeros"] = lambda it, a, k: dt(it, a, filled(it, a[0] if a else k["shape"], 0.0), k)
        F["numpy.ones"] = lambda it, a, k: dt(it, a, filled(it, a[0] if a else k["shape"], 1.0), k)
        F["numpy.empty"] = lambda it, a, k: filled(it, a[0] if a else k["shape"], 0.0)
        F["numpy.full"] = lambda it, a, k: dt(it, a, filled(it, a[0], a[1] if len(a) > 1 else k["fill_value"]), k, 2)

        def like(v):
            def h(it, a, k):
                x = it.res(a[0])
                val = v if v is not None else (a[1] if len(a) > 1 else k["fill_value"])
                if isinstance(x, U):
                    u = U("like(%s)" % x.name)
                    u.fillval = val
                    return u
                if val in (0.0, 1.0) and isinstance(x, np.ndarray) and x.size and all(type(e) is int for e in x.reshape(-1)):
                    val = int(val)  # like an integer array
                return filled(it, shape_of(it, x), val)

            return h

        F["numpy.zeros_like"], F["numpy.ones_like"], F["numpy.empty_like"], F["numpy.full_like"] = like(0.0), like(1.0), like(0.0), like(None)
        for nm in ("numpy.zeros_like", "numpy.ones_like"):
            base = F[nm]
            F[nm] = (lambda b: lambda it, a, k: dt(it, a, b(it, a, k), k))(base)

        @reg("eye", "identity")
        def eye(it, a, k):
            n = a[0]
            m = a[1] if len(a) > 1 and isinstance(a[1], int) else n
            out = np.empty((n, m), dtype=object)
            for i in range(n):
                for j in range(m):
                    out[i, j] = 1.0 if i == j else 0.0
            return out

        @reg("diag")
        def diag(it, a, k):
            x = toarr(it, a[0])
            if x.ndim == 1:
                out = eye(it, [x.size], {})
                for i in range(x.size):
                    out[i, i] = x[i]
                return out
            return I.arr([x[i, i] for i in range(min(x.shape))])

        @reg("arange")
        def arange(it, a, k):
            v = [it.num(x) for x in a]
            if any(isinstance(x, T) for x in v):
                return U("arange(%s)" % ",".join(tm.show(x) for x in v))
            return I.arr([x.item() for x in np.arange(*v)])

        @reg("linspace")
        def linspace(it, a, k):
            lo, hi = it.num(a[0] if a else k["start"]), it.num(a[1] if len(a) > 1 else k["stop"])
            n = it.num(a[2] if len(a) > 2 else k.get("num", 50))
            if isinstance(n, T):
                return U("linspace(%s,%s,%s)" % (tm.show(lo), tm.show(hi), tm.show(n)))
            end = k.get("endpoint", True)
            d = n - 1 if end else n
            if isinstance(lo, (int, float)) and isinstance(hi, (int, float)):
                return np.linspace(lo, hi, n, endpoint=bool(end)).astype(object)
            if d == 0:
                return I.arr([lo])
            return I.arr([it.binop("Add", lo, it.binop("Mult", it.binop("Sub", hi, lo), i / d)) for i in range(n)])

        @reg("concatenate", "hstack")
        def concatenate(it, a, k):
            items = it.iterate(a[0])
            ax = k.get("axis", a[1] if len(a) > 1 else 0)
            if items is None:
                return it.unknown("concatenate", "concatenate unknown")
            parts = []
            for x in items:
                x = it.res(x)
                if isinstance(x, U):
                    return it.unknown("concatenate", "concatenate unknown part " + x.name)
                if isinstance(x, Phi):
                    return it.lift(x, lambda y: concatenate(it, [[y if z is x else z for z in items]] + a[1:], k))
                x = toarr(it, x)
                if x.ndim == 0:
                    if h_stack[0]:
                        x = x.reshape(1)
                    else:
                        raise AbsRaise("ValueError: zero-dimensional arrays cannot be concatenated", it.loc())
                parts.append(x)
            try:
                if ax is None:
                    return np.concatenate([p.reshape(-1) for p in parts])
                return np.concatenate(parts, axis=ax)
            except ValueError as e:
                raise AbsRaise("ValueError: %s" % e, it.loc())

        h_stack = [False]

        def hstack(it, a, k):
            h_stack[0] = True
            try:
                items = it.iterate(a[0])
                two = items and all(isinstance(it.res(x), np.ndarray) and it.res(x).ndim > 1 for x in items)
                return concatenate(it, [a[0]] + ([1] if two else []), {})
            finally:
                h_stack[0] = False

        F["numpy.hstack"] = hstack

        @reg("vstack", "stack")
        def stack(it, a, k):
            items = it.iterate(a[0])
            if items is None:
                return it.unknown("stack", "stack unknown")
            ps = [toarr(it, x) for x in items]
            ax = k.get("axis", a[1] if len(a) > 1 else 0)
            if all(p.ndim == 1 for p in ps) or ax:
                return np.stack(ps, axis=ax)
            return np.vstack(ps) if ps and ps[0].ndim else np.stack(ps)

        @reg("column_stack")
        def column_stack(it, a, k):
            return np.stack([toarr(it, x) for x in it.iterate(a[0])], axis=1)

        @reg("append")
        def append(it, a, k):
            axis = k.get("axis", a[2] if len(a) > 2 else None)
            x, y = toarr(it, a[0]), toarr(it, a[1])
            if axis is None:
                return concatenate(it, [[x.reshape(-1), y.reshape(-1)]], {})
            return concatenate(it, [[x, y]], {"axis": axis})

        @reg("insert")
        def insert(it, a, k):
            return np.insert(toarr(it, a[0]), a[1], toarr(it, a[2]) if isinstance(a[2], (list, tuple)) else a[2])

        @reg("delete")
        def delete(it, a, k):
            x = it.res(a[0])
            if isinstance(x, U):
                return it.unknown("delete", "delete")
            ax = k.get("axis", a[2] if len(a) > 2 else None)
            ix = it._np_index(it.res(a[1]) if not isinstance(a[1], (list, tuple)) else list(a[1]))
            if ix is None:
                return it.unknown("delete", "symbolic delete")
            try:
                return np.delete(toarr(it, x), ix, axis=ax)
            except (IndexError, ValueError) as e:
                raise AbsRaise("IndexError: %s" % e, it.loc())

        @reg("sum", "nansum")
        def sum_(it, a, k):
            x = it.res(a[0])
            if isinstance(x, U):
                return tm.fn("sum", x.term)
            if isinstance(x, Phi):
                return it.lift(x, lambda y: sum_(it, [y] + a[1:], k))
            return reduce_axis(it, toarr(it, x), k.get("axis", a[1] if len(a) > 1 else None), lambda p, q: it.scalar_op("Add", p, q), 0)

        @reg("prod", "product")
        def prod(it, a, k):
            x = it.res(a[0])
            if isinstance(x, U):
                return tm.fn("prod", x.term)
            return reduce_axis(it, toarr(it, x), k.get("axis", a[1] if len(a) > 1 else None), lambda p, q: it.scalar_op("Mult", p, q), 1)

        @reg("mean", "average", "nanmean")
        def mean(it, a, k):
            x = it.res(a[0])
            if isinstance(x, U):
                return tm.fn("mean", x.term)
            x = toarr(it, x)
            ax = k.get("axis", a[1] if len(a) > 1 else None)
            n = x.size if ax is None else x.shape[ax]
            if n == 0:
                return math.nan
            return it.binop("Div", sum_(it, [x], {"axis": ax}), n)

        def red(name, f, names):
            def h(it, a, k):
                x = it.res(a[0])
                if isinstance(x, U):
                    return tm.fn(name, x.term)
                if isinstance(x, Phi):
                    return it.lift(x, lambda y: h(it, [y] + a[1:], k))
                x = toarr(it, x)
                if x.size == 0:
                    if "initial" in k:
                        return k["initial"]
                    raise AbsRaise("ValueError: zero-size array to reduction operation", it.loc())
                return reduce_axis(it, x, k.get("axis", a[1] if len(a) > 1 else None), lambda p, q: f(it.num(p), it.num(q)), None)

            for n in names:
                F["numpy." + n] = h

        red("min", tm.minimum, ("min", "amin", "nanmin"))
        red("max", tm.maximum, ("max", "amax", "nanmax"))

        @reg("any")
        def any_(it, a, k):
            x = it.res(a[0])
            if isinstance(x, U):
                return tm.sym("any(%s)" % x.name, "bool")
            if isinstance(x, Phi):
                return it.lift(x, lambda y: any_(it, [y], k))
            return tm.or_(False, *[it.truth(v) for v in toarr(it, x).reshape(-1)])

        @reg("all")
        def all_(it, a, k):
            x = it.res(a[0])
            if isinstance(x, U):
                return tm.sym("all(%s)" % x.name, "bool")
            if isinstance(x, Phi):
                return it.lift(x, lambda y: all_(it, [y], k))
            return tm.and_(True, *[it.truth(v) for v in toarr(it, x).reshape(-1)])

        @reg("allclose", "array_equal")
        def allclose(it, a, k):
            x, y = toarr(it, a[0]), toarr(it, a[1])
            try:
                return tm.and_(True, *[it.truth(v) for v in I.elementwise(lambda p, q: it.compare("Eq", p, q), x, y).reshape(-1)])
            except ValueError:
                return False

        @reg("clip")
        def clip(it, a, k):
            x = it.res(a[0])
            lo = a[1] if len(a) > 1 else k.get("a_min", k.get("min"))
            hi = a[2] if len(a) > 2 else k.get("a_max", k.get("max"))
            out = k.get("out", a[3] if len(a) > 3 else None)
            if isinstance(x, Phi):
                return it.lift(x, lambda y: clip(it, [y, lo, hi], k))

            def c(v, l, h):
                v = it.num(v)
                if l is not None:
                    v = tm.maximum(v, it.num(l))
                if h is not None:
                    v = tm.minimum(v, it.num(h))
                return v

            if isinstance(x, U) and not isinstance(lo, np.ndarray):
                return c(x, lo, hi)
            l, h = it.res(lo), it.res(hi)
            args = [toarr(it, x), toarr(it, l), toarr(it, h)]
            try:
                r = I.elementwise(c, *args)
            except ValueError as e:
                raise AbsRaise("ValueError: %s" % e, it.loc())
            r = unwrap0(r)
            if isinstance(out, np.ndarray):
                it.log_arr(out)
                out[...] = r
                return out
            return r

        @reg("where")
        def where(it, a, k):
            if len(a) == 1:
                return nonzero(it, a, k)
            c = it.res(a[0])
            if isinstance(c, (np.ndarray, list, tuple)) or isinstance(it.res(a[1]), (np.ndarray, list, tuple)) or isinstance(it.res(a[2]), (np.ndarray, list, tuple)):
                return I.elementwise(lambda p, q, r: it.merge(tm.cond(it.truth(p)), q, r) if isinstance(it.truth(p), T) else (q if it.truth(p) else r), toarr(it, c), toarr(it, a[1]), toarr(it, a[2]))
            t = it.truth(c)
            return it.merge(t, a[1], a[2]) if isinstance(t, T) else (a[1] if t else a[2])

        @reg("select")
        def select(it, a, k):
            conds, vals = it.iterate(a[0]), it.iterate(a[1])
            d = a[2] if len(a) > 2 else k.get("default", 0)
            r = d
            for c, v in reversed(list(zip(conds, vals))):
                r = where(it, [c, v, r], {})
            return r

        def true_positions(it, x):
            out = []
            for i in np.ndindex(x.shape):
                kk = it.known(it.truth(x[i]))
                if kk is None:
                    return None
                if kk:
                    out.append(i)
            return out

        @reg("nonzero")
        def nonzero(it, a, k):
            x = toarr(it, a[0])
            if x.ndim == 0:
                raise AbsRaise("ValueError: Calling nonzero on 0d arrays is not allowed.", it.loc())
            pos = true_positions(it, x)
            if pos is None:
                return it.unknown("nonzero", "symbolic nonzero")
            return tuple(I.arr([i[d] for i in pos]) for d in range(x.ndim))

        @reg("flatnonzero")
        def flatnonzero(it, a, k):
            r = nonzero(it, [toarr(it, a[0]).reshape(-1)], k)
            return r[0] if isinstance(r, tuple) else r

        @reg("argwhere")
        def argwhere(it, a, k):
            x = toarr(it, a[0])
            pos = true_positions(it, x)
            if pos is None:
                return it.unknown("argwhere", "symbolic argwhere")
            return np.array(pos, dtype=object).reshape(len(pos), x.ndim)

        def argm(name, better):
            def h(it, a, k):
                x = toarr(it, a[0]).reshape(-1)
                if not any(isinstance(v, T) for v in x):
                    vals = [float(v) for v in x]
                    return int(np.argmin(vals) if name == "argmin" else np.argmax(vals))
                best, bi_ = x[0], 0
                for i in range(1, x.size):
                    c = better(it.num(x[i]), it.num(best))
                    best, bi_ = tm.ite(tm.cond(c), x[i], best), tm.ite(tm.cond(c), i, bi_)
                return bi_

            F["numpy." + name] = h

        argm("argmin", lambda n, b: tm.lt(n, b))
        argm("argmax", lambda n, b: tm.lt(b, n))

        @reg("matmul", "dot")
        def matmul(it, a, k):
            x, y = it.res(a[0]), it.res(a[1])
            if isinstance(x, Phi):
                return it.lift(x, lambda z: matmul(it, [z, y], k))
            if isinstance(y, Phi):
                return it.lift(y, lambda z: matmul(it, [x, z], k))
            if isinstance(x, U) or isinstance(y, U):
                return it.unknown("matmul", "matmul unknown")
            x, y = toarr(it, x), toarr(it, y)
            if x.ndim == 0 or y.ndim == 0:
                return it.binop("Mult", unwrap0(x), unwrap0(y))
            return it.matmul(x, y)

        F["numpy.inner"] = F["numpy.vdot"] = matmul

        @reg("outer")
        def outer(it, a, k):
            x, y = toarr(it, a[0]).reshape(-1), toarr(it, a[1]).reshape(-1)
            out = np.empty((x.size, y.size), dtype=object)
            for i in range(x.size):
                for j in range(y.size):
                    out[i, j] = it.scalar_op("Mult", x[i], y[j])
            return out

        @reg("linalg.norm")
        def norm(it, a, k):
            x = toarr(it, a[0]).reshape(-1)
            s = 0
            for v in x:
                s = it.scalar_op("Add", s, it.scalar_op("Mult", v, v))
            return tm.fn("sqrt", s)

        F["numpy.size"] = lambda it, a, k: (lambda x: tm.fn("len", x.term) if isinstance(x, U) else toarr(it, x).size)(it.res(a[0]))
        F["numpy.ndim"] = lambda it, a, k: len(shape_of(it, a[0]))
        F["numpy.shape"] = lambda it, a, k: shape_of(it, a[0])
        F["numpy.isscalar"] = lambda it, a, k: I.is_scalar(it.res(a[0])) or isinstance(it.res(a[0]), str)
        F["numpy.squeeze"] = lambda it, a, k: (lambda x: x if isinstance(x, U) else unwrap0(toarr(it, x).squeeze()))(it.res(a[0]))
        F["numpy.ravel"] = lambda it, a, k: toarr(it, a[0]).reshape(-1)
        F["numpy.transpose"] = lambda it, a, k: toarr(it, a[0]).transpose(*a[1:])
        F["numpy.reshape"] = lambda it, a, k: toarr(it, a[0]).reshape(a[1] if len(a) > 1 else k["newshape"])
        F["numpy.expand_dims"] = lambda it, a, k: np.expand_dims(toarr(it, a[0]), a[1] if len(a) > 1 else k["axis"])
        F["numpy.flip"] = lambda it, a, k: np.flip(toarr(it, a[0]), *a[1:])
        F["numpy.rot90"] = lambda it, a, k: np.rot90(toarr(it, a[0]), *a[1:], **k)
        F["numpy.fliplr"] = lambda it, a, k: np.fliplr(toarr(it, a[0]))
        F["numpy.flipud"] = lambda it, a, k: np.flipud(toarr(it, a[0]))

        @reg("roots")
        def roots(it, a, k):
            c = [it.num(v) for v in toarr(it, a[0]).reshape(-1)]
            if any(isinstance(v, (T, U)) for v in c):
                it.event("extcall", "numpy.roots", [list(c)], {})
                return I.arr([tm.fn("root%d" % i, *c) for i in range(max(0, len(c) - 1))])
            r = np.roots([float(v) for v in c])
            out = np.empty(len(r), dtype=object)
            for i, v in enumerate(r):
                out[i] = NpFloat(v.real) if v.imag == 0 else Cplx(NpFloat(v.real), NpFloat(v.imag))
            return out

        F["numpy.tile"] = lambda it, a, k: np.tile(toarr(it, a[0]), a[1])
        F["numpy.repeat"] = lambda it, a, k: np.repeat(toarr(it, a[0]), a[1])
        def roll(it, a, k):
            x, sh = toarr(it, a[0]), it.num(it.res(a[1] if len(a) > 1 else k["shift"]))
            if not isinstance(sh, T):
                return np.roll(x, sh, **({"axis": k["axis"]} if "axis" in k else {}))
            if x.ndim != 1:
                return it.unknown("roll", "roll of a matrix by a symbolic shift")
            n = len(x)
            return I.arr([it.symindex(list(x), tm.fn("mod", tm.add(i, tm.mul(-1, sh)), n)) for i in range(n)])

        F["numpy.roll"] = roll

        def sawtooth(it, a, k):
            w = it.num(a[1] if len(a) > 1 else k.get("width", 1))
            x = it.res(a[0])
            f = lambda v: tm.fn("sawtooth", it.num(v), w)
            return I.elementwise(f, toarr(it, x)) if isinstance(x, (np.ndarray, list, tuple)) else f(x)

        F["scipy.signal.sawtooth"] = F["scipy.signal._waveforms.sawtooth"] = sawtooth
        F["numpy.split"] = lambda it, a, k: list(np.split(toarr(it, a[0]), a[1]))
        F["numpy.array_split"] = F["numpy.split"]
        F["numpy.copyto"] = lambda it, a, k: it.setitem(a[0], slice(None), a[1])
        F["numpy.set_printoptions"] = lambda it, a, k: None
        F["numpy.errstate"] = lambda it, a, k: None
        F["numpy.cumsum"] = lambda it, a, k: cumop(it, a[0], "Add")
        F["numpy.cumprod"] = lambda it, a, k: cumop(it, a[0], "Mult")
        F["numpy.diff"] = lambda it, a, k: (lambda x: I.arr([it.scalar_op("Sub", x[i + 1], x[i]) for i in range(len(x) - 1)]))(toarr(it, a[0]))
        F["numpy.round"] = F["numpy.around"] = lambda it, a, k: I.elementwise(lambda v: tm.fn("round", it.num(v)), toarr(it, a[0])) if isinstance(it.res(a[0]), (np.ndarray, list)) else tm.fn("round", it.num(a[0]))
        F["numpy.unique"] = lambda it, a, k: it.unknown("unique", "unique")
        F["numpy.sort"] = lambda it, a, k: I.arr(sort_terms(it, list(toarr(it, a[0]))))
        F["numpy.isin"] = lambda it, a, k: I.elementwise(lambda v: it.contains(a[1], v), toarr(it, a[0]))
        F["numpy.cross"] = lambda it, a, k: (lambda x, y: I.arr([x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]]) if len(x) == 3 else x[0] * y[1] - x[1] * y[0])(toarr(it, a[0]), toarr(it, a[1]))
        F["numpy.trace"] = lambda it, a, k: sum_(it, [diag(it, [a[0]], {})], {})

        @reg("linalg.inv")
        def inv(it, a, k):
            m = toarr(it, a[0])
            if m.shape == (2, 2):
                (p, q), (r, s) = m
                d = it.binop("Sub", it.binop("Mult", p, s), it.binop("Mult", q, r))
                f = lambda x: it.binop("Div", x, d)
                return I.arr([[f(s), f(it.unop("USub", q))], [f(it.unop("USub", r)), f(p)]])
            if m.shape == (3, 3):
                def minor(i, j):
                    rr = [x for x in range(3) if x != i]
                    cc = [x for x in range(3) if x != j]
                    return it.binop("Sub", it.binop("Mult", m[rr[0], cc[0]], m[rr[1], cc[1]]), it.binop("Mult", m[rr[0], cc[1]], m[rr[1], cc[0]]))
                det = 0
                for j in range(3):
                    det = it.binop("Add", det, it.binop("Mult", it.binop("Mult", m[0, j], (-1) ** j), minor(0, j)))
                return I.arr([[it.binop("Div", it.binop("Mult", (-1) ** (i + j), minor(j, i)), det) for j in range(3)] for i in range(3)])
            return it.unknown("inv", "matrix inverse")

        @reg("einsum")
        def einsum(it, a, k):
            spec = a[0].replace(" ", "")
            if spec == "ij,j->i" or spec == "ij,j":
                return it.matmul(toarr(it, a[1]), toarr(it, a[2]))
            if spec in ("i,i->", "i,i"):
                return it.matmul(toarr(it, a[1]), toarr(it, a[2]))
            if spec in ("ij,jk->ik", "ij,jk"):
                return it.matmul(toarr(it, a[1]), toarr(it, a[2]))
            if spec in ("i,j->ij", "i,j"):
                return outer(it, a[1:], k)
            return it.unknown("einsum", "einsum " + spec)

        F["numpy.polyval"] = lambda it, a, k: polyval(it, a)
        F["numpy.random.SeedSequence"] = lambda it, a, k: self.make_ss(a, k)
        F["numpy.random.default_rng"] = lambda it, a, k: self.make_rng(a, k)
        F["numpy.random.Generator"] = lambda it, a, k: self.make_rng(a, k)
        F["numpy.random.PCG64"] = lambda it, a, k: it.res(a[0]) if a else None

    # ------------------------------------------------------------------ others
    def _register_misc(self):
        F = self.fns
        S = "gymnasium.spaces."

        def box(it, a, k):
            lo = it.res(a[0] if a else k["low"])
            hi = it.res(a[1] if len(a) > 1 else k["high"])
            shp = it.res(a[2] if len(a) > 2 else k.get("shape"))
            if shp is None:
                la, ha = toarr(it, lo), toarr(it, hi)
                if la.shape != ha.shape:
                    if la.shape == ():
                        la = I.elementwise(lambda x, y: x, la, ha)
                    elif ha.shape == ():
                        ha = I.elementwise(lambda x, y: y, la, ha)
                    else:
                        raise AbsRaise("AssertionError: Box bounds have different shapes", it.loc())
                if la.shape == ():
                    la, ha = la.reshape(1), ha.reshape(1)
                shp = la.shape
            else:
                shp = tuple(it.iterate(shp))
                la, ha = toarr(it, lo), toarr(it, hi)
                ref = np.empty(shp, dtype=object)
                try:
                    la = I.elementwise(lambda x, y: x, la, ref)
                    ha = I.elementwise(lambda x, y: x, ha, ref)
                except ValueError:
                    raise AbsRaise("AssertionError: Box shape mismatch", it.loc())
                if la.shape != shp:
                    raise AbsRaise("AssertionError: Box shape mismatch", it.loc())
            o = self.new("gymnasium.spaces.Box", low=la.copy(), high=ha.copy(), shape=tuple(shp))
            return o

        F[S + "Box"] = box
        F[S + "Discrete"] = lambda it, a, k: self.new("gymnasium.spaces.Discrete", n=it.num(a[0] if a else k["n"]), shape=())

        def md(it, a, k):
            nv = it.iterate(a[0] if a else k["nvec"])
            return self.new("gymnasium.spaces.MultiDiscrete", nvec=I.arr([it.num(x) for x in nv]), shape=(len(nv),))

        F[S + "MultiDiscrete"] = md
        F[S + "Tuple"] = lambda it, a, k: self.new("gymnasium.spaces.Tuple", spaces=tuple(it.iterate(a[0] if a else k["spaces"])))
        F[S + "Dict"] = lambda it, a, k: self.new("gymnasium.spaces.Dict", spaces=a[0] if a else k)
        F["collections.deque"] = lambda it, a, k: I.Deque(it.iterate(a[0]) if a else [], it.res(k.get("maxlen", a[1] if len(a) > 1 else None)))
        F["collections.OrderedDict"] = lambda it, a, k: self.btype_call(I.BT("dict", (dict,)), a, k)
        F["collections.namedtuple"] = lambda it, a, k: U("namedtuple", dom="unknown")
        F["warnings.warn"] = lambda it, a, k: None
        def mkenum(it, a, k):
            names = it.res(a[1])
            if isinstance(names, str):
                names = names.replace(",", " ").split()
            fr = it.stack[-1]
            c = Cls(a[0], [Ext("enum.Enum")], {}, fr.module, None)
            if isinstance(names, dict):
                it.make_enum(c, list(names.items()))
            else:
                names = it.iterate(names)
                it.make_enum(c, [tuple(x) if isinstance(x, (tuple, list)) else (x, i + 1) for i, x in enumerate(names)])
            return c

        F["enum.Enum"] = mkenum
        F["enum.IntEnum"] = mkenum
        F["copy.copy"] = lambda it, a, k: shallow(it, a[0])
        F["copy.deepcopy"] = lambda it, a, k: deep(it, a[0], {})

        def partial(it, a, k):
            o = Obj(Ext("functools.partial"))
            o.attrs.update(f=a[0], a=list(a[1:]), kw=dict(k))
            return o

        F["functools.partial"] = partial

        def reduce(it, a, k):
            items = it.iterate(a[1])
            if items is None:
                return it.unknown("reduce", "reduce unknown")
            if len(a) > 2:
                acc = a[2]
            else:
                if not items:
                    raise AbsRaise("TypeError: reduce() of empty iterable", it.loc())
                acc, items = items[0], items[1:]
            for x in items:
                acc = it.call(a[0], [acc, x], {})
            return acc

        F["functools.reduce"] = reduce
        F["itertools.chain"] = lambda it, a, k: I.IterBox([y for x in a for y in (it.iterate(x) or [])])
        F["itertools.chain.from_iterable"] = lambda it, a, k: I.IterBox([y for x in it.iterate(a[0]) for y in (it.iterate(x) or [])])

        def product(it, a, k):
            import itertools as itt

            return I.IterBox([tuple(x) for x in itt.product(*[it.iterate(x) for x in a], repeat=k.get("repeat", 1))])

        F["itertools.product"] = product
        F["itertools.accumulate"] = lambda it, a, k: I.IterBox(list(cumop(it, a[0], "Add")))
        F["itertools.repeat"] = lambda it, a, k: I.IterBox([a[0]] * a[1]) if len(a) > 1 else it.unknown("repeat", "infinite repeat")
        F["itertools.islice"] = lambda it, a, k: I.IterBox(list(it.iterate(a[0]))[slice(*a[1:])])
        F["itertools.pairwise"] = lambda it, a, k: (lambda l: I.IterBox(list(zip(l, l[1:]))))(it.iterate(a[0]))
        F["operator.itemgetter"] = lambda it, a, k: Native("itemgetter", lambda i, b, kk: i.getitem(b[0], a[0]) if len(a) == 1 else tuple(i.getitem(b[0], x) for x in a))
        F["operator.attrgetter"] = lambda it, a, k: Native("attrgetter", lambda i, b, kk: i.getattr(b[0], a[0]))
        F["operator.mul"] = lambda it, a, k: it.binop("Mult", a[0], a[1])
        F["operator.add"] = lambda it, a, k: it.binop("Add", a[0], a[1])
        F["operator.sub"] = lambda it, a, k: it.binop("Sub", a[0], a[1])
        F["operator.truediv"] = lambda it, a, k: it.binop("Div", a[0], a[1])
        F["math.isclose"] = lambda it, a, k: tm.eq(it.num(a[0]), it.num(a[1]))
        F["math.prod"] = lambda it, a, k: self.fns["numpy.prod"](it, [it.iterate(a[0])], {})
        F["math.fsum"] = lambda it, a, k: self.fns["numpy.sum"](it, [it.iterate(a[0])], {})
        F["math.sqrt"] = lambda it, a, k: tm.fn("sqrt", it.num(a[0]))
        F["time.time"] = lambda it, a, k: tm.fresh("time")
        F["packaging.version.parse"] = lambda it, a, k: U("version", dom="bool")
        F["dataclasses.dataclass"] = lambda it, a, k: (setattr(a[0], "dataclass", True) or a[0]) if a and isinstance(a[0], Cls) else Native("dataclass", lambda i, b, kk: (setattr(b[0], "dataclass", True), b[0])[1])

        def field(it, a, k):
            u = U("field()")
            if "default_factory" in k:
                u.factory = k["default_factory"]
            if "default" in k:
                u.default = k["default"]
            return u

        F["dataclasses.field"] = field

        def truncrv(name):
            def h(it, a, k):
                rs = it.res(k.get("random_state"))
                e = it.event("scipy_draw", name, [I.snap(x) for x in a], dict(k), obj=rs)
                if rs is None:
                    it.event("global_random", "scipy.stats." + name, a, k)
                    tag = ("global", tm.fresh("global_random"))
                elif isinstance(rs, Obj) and "key" in rs.attrs:
                    c = rs.attrs["count"]
                    it.log_dict(rs.attrs, "count")
                    rs.attrs["count"] = c + 1 if not isinstance(c, T) else tm.add(c, 1)
                    tag = (keystr(rs.attrs["key"]), c)
                    e.result = (rs.attrs["key"], c)
                else:
                    tag = ("state", it.num(rs) if I.is_scalar(rs) or isinstance(rs, U) else "?")
                    e.result = (("fixed", tag[1]), 0)
                size = it.res(k.get("size"))
                if name == "truncnorm":
                    lo, hi = a[0], a[1]
                    loc, scale = k.get("loc", a[2] if len(a) > 2 else 0), k.get("scale", a[3] if len(a) > 3 else 1)
                else:
                    lo, hi, loc, scale = 0, 1, k.get("loc", a[0] if a else 0), k.get("scale", a[1] if len(a) > 1 else 1)

                def one(i, l=lo, h2=hi, lc=loc, sc=scale):
                    u = tm.fn("u01", *(tag + (i,)))
                    z = it.binop("Add", l, it.binop("Mult", it.binop("Sub", h2, l), u))
                    return it.binop("Add", lc, it.binop("Mult", z, sc))

                if size is None:
                    shp = np.broadcast(*[toarr(it, x) for x in (lo, hi, loc, scale)]).shape
                    if shp == ():
                        return one(0)
                    size = shp
                if isinstance(size, (T, U)):
                    return U("rvs")
                shp = tuple(size) if isinstance(size, (tuple, list)) else (int(size),)
                b = [np.broadcast_to(toarr(it, x), shp).reshape(-1) for x in (lo, hi, loc, scale)]
                out = np.empty(shp, dtype=object)
                fl = out.reshape(-1)
                for i in range(fl.size):
                    fl[i] = one(i, b[0][i], b[1][i], b[2][i], b[3][i])
                return out

            return h

        rv = truncrv("truncnorm")
        def concrete_griddata(it, parts, grid, method, k):
            """The interpolation of a table of numbers, None where scipy refuses it (then it stays uninterpreted)."""
            from scipy import interpolate
            if set(k) - {"method", "xi"} or not isinstance(method, str):
                return None
            try:
                return interpolate.griddata(tuple(parts[:-1]) if len(parts) > 2 else parts[0], parts[-1], tuple(grid) if len(grid) > 1 else grid[0], method=method).astype(object)
            except Exception:
                return None

        def griddata(it, a, k):
            xi = it.res(a[2] if len(a) > 2 else k["xi"])
            g = toarr(it, xi[0]) if isinstance(xi, (tuple, list)) else toarr(it, xi)
            parts = [toarr(it, v) for v in (list(it.iterate(a[0])) if isinstance(it.res(a[0]), (tuple, list)) else [a[0]]) + [a[1]]]
            grid = [toarr(it, v) for v in xi] if isinstance(xi, (tuple, list)) else [g]
            if all(isinstance(v, (int, float)) for x in parts + grid for v in x.reshape(-1)):
                r = concrete_griddata(it, [x.astype(float) for x in parts], [x.astype(float) for x in grid], a[3] if len(a) > 3 else k.get("method", "linear"), k)
                if r is not None:
                    return r
            key = "".join(it.table_key(v) for v in parts)[:48]
            out = np.empty(g.shape, dtype=object)
            for n, i in enumerate(np.ndindex(g.shape)):
                out[i] = tm.fn("griddata", key, *(it.num(toarr(it, v)[i]) for v in (xi if isinstance(xi, (tuple, list)) else [xi])))
            return out

        def interp1d(it, a, k):
            x, y = toarr(it, a[0]), toarr(it, a[1])
            if x.shape[0] != y.shape[-1]:
                raise AbsRaise("ValueError: x and y arrays must be equal in length along interpolation axis.", it.loc())
            kind = a[2] if len(a) > 2 else k.get("kind", "linear")
            key = it.table_key(x) + it.table_key(y) + str(kind)
            exact = None
            if not set(k) - {"kind"} and isinstance(kind, str) and x.ndim == y.ndim == 1 and all(isinstance(v, (int, float)) for v in list(x) + list(y)):
                from scipy import interpolate
                try:
                    exact = interpolate.interp1d(x.astype(float), y.astype(float), kind=kind)
                except ValueError as e:
                    raise AbsRaise("ValueError: %s" % e, it.loc())

            def at(it_, q):
                q = it_.num(q)
                if exact is not None and isinstance(q, (int, float)) and not isinstance(q, bool):
                    try:
                        return float(exact(q))
                    except ValueError as e:
                        raise AbsRaise("ValueError: %s" % e, it_.loc())
                return tm.fn("interp1d", key, q)

            def evaluate(it_, b, kk):
                v = it_.res(b[0])
                return I.elementwise(lambda q: at(it_, q), toarr(it_, v)) if isinstance(v, (np.ndarray, list)) else at(it_, v)

            return Native("interp1d", evaluate)

        F["scipy.interpolate.griddata"] = griddata
        F["scipy.interpolate.interp1d"] = interp1d
        F["scipy.stats.truncnorm.rvs"] = rv
        F["scipy.stats.uniform.rvs"] = truncrv("uniform")

        def frozen(it, a, k):
            m = Mock("truncnorm_frozen")
            m.methods["rvs"] = lambda i, *b, **kk: rv(i, list(a), {**k, **({"size": b[0]} if b else {}), **kk})
            return m

        F["scipy.stats.truncnorm"] = frozen


def positional(name, args, kwargs):
    """Move keyword arguments of a library function to their positions."""
    import inspect

    f = {"numpy": np}.get(name.split(".")[0])
    for part in name.split(".")[1:]:
        f = getattr(f, part, None)
    try:
        ps = [p.name for p in inspect.signature(f).parameters.values() if p.kind in (0, 1)]
    except (TypeError, ValueError):
        return args, kwargs
    a, k = list(args), dict(kwargs)
    for p in ps[len(a):]:
        if p not in k:
            break
        a.append(k.pop(p))
    return a, k


def unnum(x):
    return I.unnp(x)


def cumop(it, v, op):
    x = toarr(it, v).reshape(-1)
    out, acc = [], None
    for y in x:
        acc = y if acc is None else it.scalar_op(op, acc, y)
        out.append(acc)
    return I.arr(out)


def polyval(it, a):
    c, x = it.iterate(a[0]), a[1]
    acc = 0
    for v in c:
        acc = it.binop("Add", it.binop("Mult", acc, x), v)
    return acc


def reduce_axis(it, x, axis, f, init):
    if axis is None or x.ndim <= 1:
        vals = list(x.reshape(-1))
        if init is None:
            acc, vals = vals[0], vals[1:]
        else:
            acc = init
        for v in vals:
            acc = f(acc, v)
        return acc
    x = np.moveaxis(x, axis, -1)
    flat = x.reshape(-1, x.shape[-1])
    out = I.arr([reduce_axis(it, r, None, f, init) for r in flat])
    return out.reshape(x.shape[:-1])


def keyof(v):
    if isinstance(v, Obj) and "key" in v.attrs:
        return v.attrs["key"]
    if isinstance(v, T):
        return ("t", v)
    if isinstance(v, U):
        return ("t", v.term)
    if isinstance(v, (list, tuple)):
        return tuple(keyof(x) for x in v)
    if isinstance(v, np.ndarray):
        return tuple(keyof(x) for x in v.reshape(-1))
    return v


def keystr(k):
    """Keep terms inside keys visible to traversal: tuples of terms and constants."""
    out = []

    def rec(x):
        if isinstance(x, tuple):
            for y in x:
                rec(y)
        else:
            out.append(x)

    rec(k)
    return tuple(out)


def sort_terms(it, items):
    if not any(isinstance(x, T) for x in items):
        try:
            return sorted(items)
        except TypeError:
            pass
    xs = list(items)
    n = len(xs)
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = it.num(xs[j]), it.num(xs[j + 1])
            c = tm.lt(b, a)
            if isinstance(c, T):
                k = it.known(c)
                c = c if k is None else k
            if c is True:
                xs[j], xs[j + 1] = b, a
            elif c is not False:
                xs[j], xs[j + 1] = tm.ite(c, b, a), tm.ite(c, a, b)
    return xs


def typeof(it, v):
    v = it.res(v)
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, Cls):
        return it.builtins["type"]
    if isinstance(v, bool):
        return it.builtins["bool"]
    for n, t in I.BTYPES.items():
        if t and type(v) in t:
            return it.builtins[n]
    if isinstance(v, np.ndarray):
        return Ext("numpy.ndarray")
    if isinstance(v, T):
        return it.builtins["float"]
    if v is None:
        return Ext("builtins.NoneType")
    if isinstance(v, Mock):
        return v.isa[0] if v.isa else U("type(%s)" % v.name)
    return U("type(%r)" % (v,), dom="bool")


def isinstance_(it, v, c):
    v, c = it.res(v), it.res(c)
    if isinstance(v, Phi):
        return it.lift(v, lambda x: isinstance_(it, x, c))
    if isinstance(c, tuple):
        cs = [isinstance_(it, v, x) for x in c]
        return tm.or_(False, *cs)
    if isinstance(c, Cls):
        if isinstance(v, Obj):
            return isinstance(v.cls, Cls) and v.cls.issub(c)
        if isinstance(v, Mock):
            if any(isinstance(x, Cls) and x.issub(c) for x in v.isa):
                return True
            return False
        if isinstance(v, U):
            if v.cls is not None:
                return v.cls.issub(c)
            return tm.sym("isinstance(%s,%s)" % (v.name, c.name), "bool")
        return False
    if isinstance(c, I.BT):
        if c.name == "object":
            return True
        if c.name == "type":
            return isinstance(v, (Cls, I.BT)) or (isinstance(v, Ext))
        if isinstance(v, T):
            if c.name == "float":
                return v.dom not in ("int", "nat", "bool") and not tm._is_cond(v)
            if c.name == "int":
                return v.dom in ("int", "nat", "bool") or tm._is_cond(v)
            if c.name == "bool":
                return tm._is_cond(v)
            return False
        if isinstance(v, U):
            return tm.sym("isinstance(%s,%s)" % (v.name, c.name), "bool")
        v = I.unnp(v)
        if isinstance(v, I.IterBox):
            return False
        if isinstance(v, Obj) and isinstance(v.cls, Cls):
            return any(isinstance(b, Ext) and b.name == "builtins." + c.name for b in v.cls.mro)
        return isinstance(v, c.types) if c.types else False
    if isinstance(c, Ext):
        last = c.name.rsplit(".", 1)[-1]
        if isinstance(v, Obj):
            if isinstance(v.cls, Ext):
                return same_ext(v.cls, c)
            return v.cls.issub(c)
        if c.name == "numpy.ndarray":
            return isinstance(v, np.ndarray) if not isinstance(v, (U,)) else tm.sym("isinstance(%s,ndarray)" % v.name, "bool")
        if last in ("Number", "Real", "floating", "float64", "number"):
            return I.is_scalar(v) if not isinstance(v, U) else tm.sym("isinstance(%s,%s)" % (v.name, last), "bool")
        if last in ("integer", "Integral"):
            v = I.unnp(v)
            return isinstance(v, int) or (isinstance(v, T) and v.dom in ("int", "nat"))
        if last in ("Iterable", "Sequence", "Collection"):
            return isinstance(v, (list, tuple, np.ndarray)) or (last != "Sequence" and isinstance(v, (dict, set, I.IterBox))) or isinstance(v, str)
        if last == "Mapping":
            return isinstance(v, dict)
        if last == "Callable":
            return callable_(it, [v], {})
        if last == "NoneType":
            return v is None
        if last == "deque":
            return isinstance(v, I.Deque)
        if isinstance(v, U):
            return tm.sym("isinstance(%s,%s)" % (v.name, last), "bool")
        if isinstance(v, Mock):
            return any(isinstance(x, Ext) and same_ext(x, c) for x in v.isa)
        return False
    return tm.sym("isinstance(%r,%r)" % (v, c), "bool")


def callable_(it, a, k):
    v = it.res(a[0])
    if isinstance(v, (Func, Bound, Native, Cls, I.BT, Ext, I.MockMethod)):
        return True
    if isinstance(v, Obj):
        if isinstance(v.cls, Cls):
            return v.cls.lookup("__call__")[1] is not None
        return v.extname == "functools.partial"
    if isinstance(v, Mock):
        return "__call__" in v.methods
    if isinstance(v, Phi):
        return it.lift(v, lambda x: callable_(it, [x], {}))
    if isinstance(v, U):
        return tm.sym("callable(%s)" % v.name, "bool")
    return False


def shallow(it, v):
    v = it.res(v)
    if isinstance(v, list):
        return list(v)
    if isinstance(v, dict):
        return dict(v)
    if isinstance(v, set):
        return set(v)
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, Obj):
        o = Obj(v.cls)
        o.attrs = dict(v.attrs)
        return o
    if isinstance(v, I.Deque):
        return I.Deque(list(v.items), v.maxlen)
    return v


def deep(it, v, memo):
    v = it.res(v)
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, list):
        r = []
        memo[id(v)] = r
        r.extend(deep(it, x, memo) for x in v)
        return r
    if isinstance(v, tuple):
        return tuple(deep(it, x, memo) for x in v)
    if isinstance(v, dict):
        r = {}
        memo[id(v)] = r
        for k, x in v.items():
            r[k] = deep(it, x, memo)
        return r
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, Obj):
        o = Obj(v.cls)
        memo[id(v)] = o
        o.attrs = {k: deep(it, x, memo) for k, x in v.attrs.items()}
        return o
    if isinstance(v, I.Deque):
        return I.Deque([deep(it, x, memo) for x in v.items], v.maxlen)
    return v


def sorted_(it, a, k):
    items = it.iterate(a[0])
    if items is None:
        return it.unknown("sorted", "sorted unknown")
    key = k.get("key")
    rev = k.get("reverse", False)
    if key is not None:
        keys = [it.call(key, [x], {}) for x in items]
        if any(isinstance(x, (T, U, Phi)) for x in keys):
            return it.unknown("sorted", "symbolic sort key")
        order = sorted(range(len(items)), key=lambda i: keys[i], reverse=bool(rev))
        return [items[i] for i in order]
    items = [I.unnp(x) for x in items]
    if any(isinstance(x, (T, U, Phi)) for x in items):
        r = sort_terms(it, items)
    else:
        try:
            r = sorted(items)
        except TypeError:
            r = items
    return r[::-1] if rev else r


def next_(it, a, k):
    x = it.res(a[0])
    if isinstance(x, I.IterBox):
        if x.items:
            it.log_list(x.items)
            return x.items.pop(0)
        if len(a) > 1:
            return a[1]
        raise AbsRaise("StopIteration", it.loc())
    if isinstance(x, Obj) and isinstance(x.cls, Cls):
        return it.call(it.getattr(x, "__next__"), [], {})
    return it.unknown("next", "next of unknown")


def make_builtins(it):
    B = {}

    def reg(n):
        def d(f):
            B[n] = Native(n, f)
            return f

        return d

    @reg("len")
    def len_(i, a, k):
        v = i.res(a[0])
        if isinstance(v, Phi):
            return i.lift(v, lambda x: len_(i, [x], k))
        if isinstance(v, (list, tuple, dict, str, set, frozenset, range)):
            return len(v)
        if isinstance(v, np.ndarray):
            if v.ndim == 0:
                raise AbsRaise("TypeError: len() of unsized object", i.loc())
            return v.shape[0]
        if isinstance(v, I.Deque):
            return len(v.items)
        if isinstance(v, U):
            return tm.fn("len", v.term)
        if isinstance(v, T):
            return tm.fn("len", v)
        if isinstance(v, Obj):
            if isinstance(v.cls, Cls) and v.cls.lookup("__len__")[1] is not None:
                return i.call(i.getattr(v, "__len__"), [], {})
            if v.extname and v.extname.endswith("Tuple"):
                return len(v.attrs["spaces"])
        if isinstance(v, Mock) and "__len__" in v.methods:
            return v.methods["__len__"](i)
        if isinstance(v, (int, float)) or v is None:
            raise AbsRaise("TypeError: object of type %s has no len()" % type(v).__name__, i.loc())
        items = i.iterate(v)
        if items is not None:
            return len(items)
        return i.unknown("len", "len").term

    B["range"] = I.BT("range", (range,))

    @reg("enumerate")
    def enumerate_(i, a, k):
        items = i.iterate(a[0])
        st = k.get("start", a[1] if len(a) > 1 else 0)
        if items is None:
            e = i.elem_of(i.res(a[0])) if isinstance(i.res(a[0]), (U, T)) else U("elem", dom="unknown")
            u = U("enumerate")
            u.attrs["[*]"] = (tm.fresh("i", "int"), e)
            return u
        return I.IterBox([(st + n if not isinstance(st, T) else tm.add(st, n), x) for n, x in enumerate(items)])

    @reg("zip")
    def zip_(i, a, k):
        ends = {n: i.res(x).items for n, x in enumerate(a) if isinstance(i.res(x), I.IterBox) and isinstance(i.res(x).items, I.Endless)}
        ls = [i.iterate(x) if n not in ends else None for n, x in enumerate(a)]
        if ends and all(l is not None for n, l in enumerate(ls) if n not in ends) and len(ends) < len(ls):
            count = min(len(l) for n, l in enumerate(ls) if n not in ends)
            for n, e in ends.items():
                i.log_list(e)
                ls[n] = [e.pop(0) for _ in range(count)]
        if any(l is None for l in ls):
            known = [l for l in ls if l is not None]
            if known:
                n = min(len(l) for l in known)
                ls = [l if l is not None else [i.getitem(x, j) for j in range(n)] for l, x in zip(ls, a)]
            else:
                u = U("zip")
                u.attrs["[*]"] = tuple(i.elem_of(i.res(x)) for x in a)
                return u
        return I.IterBox([tuple(x) for x in zip(*ls)])

    @reg("map")
    def map_(i, a, k):
        ls = [i.iterate(x) for x in a[1:]]
        if any(l is None for l in ls):
            return i.unknown("map", "map unknown")
        return I.IterBox([i.call(a[0], list(x), {}) for x in zip(*ls)])

    @reg("filter")
    def filter_(i, a, k):
        l = i.iterate(a[1])
        out = []
        for x in l or []:
            c = i.known(i.truth(i.call(a[0], [x], {}) if a[0] is not None else x))
            if c is None:
                return i.unknown("filter", "symbolic filter")
            if c:
                out.append(x)
        return I.IterBox(out)

    B["sorted"] = Native("sorted", sorted_)
    B["reversed"] = Native("reversed", lambda i, a, k: I.IterBox((i.iterate(a[0]) or [])[::-1]))
    B["iter"] = Native("iter", lambda i, a, k: a[0] if isinstance(a[0], I.IterBox) else (I.IterBox(i.iterate(a[0])) if i.iterate(a[0]) is not None else i.unknown("iter", "iter")))
    B["next"] = Native("next", next_)

    @reg("any")
    def any_(i, a, k):
        v = i.res(a[0])
        if isinstance(v, U) and v.elem if hasattr(v, "elem") and isinstance(v, U) else False:
            return tm.sym("any(%s)" % v.name, "unknown")
        items = i.iterate(v)
        if items is None:
            return tm.sym("any(%r)" % (v,), "bool")
        return tm.or_(False, *[i.truth(x) for x in items])

    @reg("all")
    def all_(i, a, k):
        v = i.res(a[0])
        items = i.iterate(v)
        if items is None:
            return tm.sym("all(%r)" % (v,), "bool")
        return tm.and_(True, *[i.truth(x) for x in items])

    @reg("sum")
    def sum_(i, a, k):
        items = i.iterate(a[0])
        if items is None:
            return tm.fn("sum", i.num(a[0]))
        acc = a[1] if len(a) > 1 else k.get("start", 0)
        for x in items:
            acc = i.binop("Add", acc, x)
        return acc

    def mm(name, better):
        def h(i, a, k):
            if len(a) == 1:
                items = i.iterate(a[0])
                if items is None:
                    return tm.fn(name, i.num(a[0]))
            else:
                items = list(a)
            if not items:
                if "default" in k:
                    return k["default"]
                raise AbsRaise("ValueError: %s() arg is an empty sequence" % name, i.loc())
            key = k.get("key")
            best = items[0]
            bk = i.call(key, [best], {}) if key is not None else best
            for x in items[1:]:
                xk = i.call(key, [x], {}) if key is not None else x
                c = i.truth(i.compare("Lt", xk, bk) if better == "Lt" else i.compare("Gt", xk, bk))
                kn = i.known(c)
                if kn is True:
                    best, bk = x, xk
                elif kn is None:
                    if isinstance(best, list) or isinstance(x, list):
                        bl, xl = i.iterate(best), i.iterate(x)
                        best = i.merge(c, arrize(x), arrize(best))
                    else:
                        best = i.merge(c, x, best)
                    bk = i.merge(c, xk, bk)
            return best

        B[name] = Native(name, h)

    def arrize(x):
        return I.arr(x) if isinstance(x, list) else x

    mm("min", "Lt")
    mm("max", "Gt")

    @reg("abs")
    def abs_(i, a, k):
        v = i.res(a[0])
        if isinstance(v, np.ndarray):
            return I.elementwise(lambda x: abs_(i, [x], {}), v)
        if isinstance(v, Phi):
            return i.lift(v, lambda x: abs_(i, [x], {}))
        v = i.num(v)
        if isinstance(v, Cplx):
            return v.abs()
        return abs(v) if not isinstance(v, T) else tm.fn("abs", v)

    @reg("round")
    def round_(i, a, k):
        v = i.num(a[0])
        if isinstance(v, T):
            return tm.fn("round", v) if len(a) == 1 else tm.fn("roundn", v, a[1])
        return round(v, *a[1:])

    B["pow"] = Native("pow", lambda i, a, k: i.binop("Pow", a[0], a[1]))
    B["divmod"] = Native("divmod", lambda i, a, k: (i.binop("FloorDiv", a[0], a[1]), i.binop("Mod", a[0], a[1])))
    B["print"] = Native("print", lambda i, a, k: i.event("print", "print", list(a), dict(k)) and None)
    B["isinstance"] = Native("isinstance", lambda i, a, k: isinstance_(i, a[0], a[1]))

    @reg("issubclass")
    def issubclass_(i, a, k):
        c, b = i.res(a[0]), i.res(a[1])
        if isinstance(b, tuple):
            return tm.or_(False, *[issubclass_(i, [c, x], {}) for x in b])
        if isinstance(c, Cls) and isinstance(b, (Cls, Ext)):
            return c.issub(b)
        if isinstance(c, I.BT) and isinstance(b, I.BT):
            return b.name == "object" or issubclass(c.types[0], b.types) if c.types and b.types else c is b
        if isinstance(c, (Ext, I.BT)):
            return c is b
        return tm.sym("issubclass(%r,%r)" % (c, b), "bool")

    B["callable"] = Native("callable", callable_)

    @reg("getattr")
    def getattr_(i, a, k):
        n = i.res(a[1])
        if isinstance(n, Phi):
            return i.lift(n, lambda x: getattr_(i, [a[0], x] + a[2:], k))
        if not isinstance(n, str):
            return i.unknown("getattr", "getattr symbolic")
        try:
            return i.getattr(a[0], n)
        except AbsRaise as e:
            if len(a) > 2 and I.exc_name(e.exc) == "AttributeError":
                return a[2]
            raise

    @reg("hasattr")
    def hasattr_(i, a, k):
        o = i.res(a[0])
        if isinstance(o, Phi):
            return i.lift(o, lambda x: hasattr_(i, [x, a[1]], k))
        if isinstance(o, Mock) and a[1] not in o.attrs and a[1] not in o.methods:
            return False
        try:
            i.getattr(o, a[1])
            return True
        except AbsRaise as e:
            return False

    B["setattr"] = Native("setattr", lambda i, a, k: i.setattr(a[0], a[1], a[2]))
    B["delattr"] = Native("delattr", lambda i, a, k: i.degrade("delattr"))
    B["id"] = Native("id", lambda i, a, k: id(a[0]))
    B["hash"] = Native("hash", lambda i, a, k: tm.fn("hash", str(a[0])))
    B["repr"] = Native("repr", lambda i, a, k: str(a[0]))
    B["vars"] = Native("vars", lambda i, a, k: a[0].attrs if isinstance(a[0], Obj) else {})
    B["dir"] = Native("dir", lambda i, a, k: list(a[0].attrs) if isinstance(a[0], Obj) else [])
    B["super"] = Native("super", lambda i, a, k: None)
    B["property"] = Native("property", lambda i, a, k: Prop(a[0] if a else k.get("fget"), a[1] if len(a) > 1 else k.get("fset")))
    B["staticmethod"] = Native("staticmethod", lambda i, a, k: StaticM(a[0]))
    B["classmethod"] = Native("classmethod", lambda i, a, k: ClassM(a[0]))
    B["format"] = Native("format", lambda i, a, k: str(a[0]))
    B["chr"] = Native("chr", lambda i, a, k: chr(a[0]))
    B["ord"] = Native("ord", lambda i, a, k: ord(a[0]))
    B["open"] = Native("open", lambda i, a, k: U("file"))
    B["input"] = Native("input", lambda i, a, k: U("input"))
    B["globals"] = Native("globals", lambda i, a, k: i.stack[-1].module.ns)
    B["locals"] = Native("locals", lambda i, a, k: dict(i.stack[-1].locals))
    npmore.builtins(it, B)
    return B
