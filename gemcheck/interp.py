"""Interprocedural abstract interpreter over the Python AST (see DESIGN.md, "Engine").

Joins at every control-flow merge, widening at unknown loops, no path enumeration, no solver, and no execution of the
analysed program.  Anything outside the supported fragment degrades to an unknown value and is recorded in
``degraded``; checks treat conclusions that depend on it as undecided.
"""
import ast
import math
import builtins as pybuiltins
import os
import sys

import numpy as np

from . import terms as tm
from .terms import T
from .values import *
from .values import same_ext

sys.setrecursionlimit(20000)

SRC = os.path.join(os.environ.get("GEM_REPO", "/repo"), "src")
PACKAGES = ("gym_electric_motor", "gem_controllers")
_parse_cache = {}


class Event:
    __slots__ = ("kind", "name", "args", "kwargs", "guards", "loc", "loop", "result", "choice", "obj", "seq", "stack")

    def __init__(self, kind, name, args, kwargs, guards, loc, loop, obj=None, stack=()):
        self.kind, self.name, self.args, self.kwargs = kind, name, args, kwargs
        self.guards, self.loc, self.loop, self.obj = guards, loc, loop, obj
        self.stack = stack
        self.result = None

    def __repr__(self):
        return "%s:%s%r @%s" % (self.kind, self.name, tuple(self.args), self.loc)


class Frame:
    def __init__(self, func, module, locals_, cls=None, parent=None, self_=None):
        self.func, self.module, self.locals, self.cls, self.parent, self.self_ = func, module, locals_, cls, parent, self_
        self.node = None
        self.call_args = ()
        self.globals_decl = set()
        self.nonlocals = set()
        self.yields = None
        self.on_yield = None
        self.tries = []
        self.handling = []


def _same_args(a, b):
    return len(a) == len(b) and all(x is y or (isinstance(x, str) and x == y) for x, y in zip(a, b))


class BT:
    """A builtin python type."""

    def __init__(self, name, types):
        self.name, self.types = name, types

    def __repr__(self):
        return "<type %s>" % self.name


BTYPES = {
    "int": (int,),
    "float": (float,),
    "bool": (bool,),
    "str": (str,),
    "list": (list,),
    "tuple": (tuple,),
    "dict": (dict,),
    "set": (set,),
    "frozenset": (frozenset,),
    "type": (),
    "object": (),
    "complex": (complex,),
    "bytes": (bytes,),
    "slice": (slice,),
    "range": (range,),
}
EXCEPTIONS = [n for n in dir(pybuiltins) if isinstance(getattr(pybuiltins, n), type) and issubclass(getattr(pybuiltins, n), BaseException)]


def is_scalar(v):
    return isinstance(v, (bool, int, float, T)) or isinstance(v, (np.bool_, np.integer, np.floating)) or type(v).__name__ == "Fraction"


def unnp(v):
    if isinstance(v, np.generic):
        return v.item()
    return v


def arr(x):
    """Object array from nested python values, never descending into abstract objects."""
    if isinstance(x, np.ndarray):
        return x if x.dtype == object else x.astype(object)
    if isinstance(x, (list, tuple)):
        items = [arr(i) if isinstance(i, (list, tuple, np.ndarray)) else i for i in x]
        if items and all(isinstance(i, np.ndarray) for i in items) and len({i.shape for i in items}) == 1:
            out = np.empty((len(items),) + items[0].shape, dtype=object)
            for k, i in enumerate(items):
                out[k] = i
            return out
        if any(isinstance(i, np.ndarray) for i in items):
            if all((not isinstance(i, np.ndarray)) or i.size == 1 for i in items):
                items = [i.reshape(-1)[0] if isinstance(i, np.ndarray) else i for i in items]
            else:
                raise Unsupported("ragged array")
        out = np.empty(len(items), dtype=object)
        for k, i in enumerate(items):
            out[k] = i
        return out
    out = np.empty((), dtype=object)
    out[()] = x
    return out


def is_real(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def is_zero(x):
    return is_real(x) and x == 0


def ieee_div(x):
    """x / 0 on array elements: no exception, but inf or nan."""
    return float("nan") if x == 0 or x != x else math.copysign(math.inf, x)


def elementwise(f, *arrays):
    arrays = [arr(a) for a in arrays]
    try:
        b = np.broadcast(*arrays) if len(arrays) > 1 else None
    except ValueError:
        raise AbsRaise("ValueError: operands could not be broadcast together with shapes %s" % " ".join(str(a.shape) for a in arrays), "")
    shape = b.shape if b is not None else arrays[0].shape
    out = np.empty(shape, dtype=object)
    if b is not None:
        flat = out.reshape(-1)
        for i, vals in enumerate(b):
            flat[i] = f(*vals)
        out = flat.reshape(shape)
    else:
        src = arrays[0].reshape(-1)
        flat = np.empty(src.size, dtype=object)
        for i in range(src.size):
            flat[i] = f(src[i])
        out = flat.reshape(shape)
    return out


class Interp:
    def __init__(self, src=None):
        self.src = src or SRC
        self.modules = {}
        self.journals = []
        self.facts = []
        self.factd = {}
        self.guards = []
        self.events = []
        self.loop = 0
        self.stack = []
        self.degraded = []
        self.functions = {}
        self.origin = {}
        self.keep = []
        self.watch = None
        self.intercepts = {}
        self.call_sites = set()
        self.stmts = 0
        self.max_depth = 90
        self.sides = 0
        self.next_yield = None
        self.log_enter = False
        self.rng_fresh = 0
        self.draws = []
        from . import extlib

        self.ext = extlib.ExtLib(self)
        self.builtins = self._make_builtins()

    # ------------------------------------------------------------------ modules
    def module_path(self, name):
        p = os.path.join(self.src, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        return None, False

    def load(self, name):
        if name in self.modules:
            m = self.modules[name]
            return m
        if name.split(".")[0] not in PACKAGES:
            return Ext(name)
        path, is_pkg = self.module_path(name)
        if path is None:
            raise AbsRaise("ModuleNotFoundError: " + name)
        if "." in name:
            self.load(name.rpartition(".")[0])
            if name in self.modules:
                return self.modules[name]
        key = path
        st = os.stat(path)
        sig = (st.st_mtime_ns, st.st_size)
        if key in _parse_cache and _parse_cache[key][0] == sig:
            tree = _parse_cache[key][1]
        else:
            with open(path, encoding="utf-8") as f:
                tree = ast.parse(f.read(), path)
            _parse_cache[key] = (sig, tree)
        m = Module(name, path, tree, is_pkg)
        m.ns["__name__"] = name
        m.ns["__file__"] = path
        self.modules[name] = m
        m.state = "loading"
        fr = Frame(None, m, m.ns)
        self.stack.append(fr)
        saved, self.journals = self.journals, []
        sg, self.guards = self.guards, []
        try:
            self.settle(self.exec_block(tree.body))
        finally:
            self.stack.pop()
            self.journals = saved
            self.guards = sg
        m.state = "done"
        if "." in name:
            pn, _, cn = name.rpartition(".")
            self.modules[pn].ns.setdefault(cn, m)
        for k, v in list(m.ns.items()):
            if isinstance(v, (list, dict, set, np.ndarray)):
                self.mark_origin(v, "module %s.%s" % (name, k))
        return m

    def load_text(self, name, text, **ns):
        """Analyser-side summary classes written as a module of their own (environment of the analysed code)."""
        tree = ast.parse(text, "spec:" + name)
        m = Module(name, "spec:" + name, tree, False)
        m.ns["__name__"] = name
        m.ns.update(ns)
        self.modules[name] = m
        self.stack.append(Frame(None, m, m.ns))
        saved, self.journals = self.journals, []
        sg, self.guards = self.guards, []
        try:
            self.settle(self.exec_block(tree.body))
        finally:
            self.stack.pop()
            self.journals = saved
            self.guards = sg
        m.state = "done"
        return m

    def get(self, dotted):
        """Resolve 'pkg.mod:Name.attr'."""
        mod, _, name = dotted.partition(":")
        v = self.load(mod)
        for part in name.split(".") if name else []:
            v = self.getattr(v, part)
        return v

    def find_class(self, name, pkg=None):
        hits = []
        for m in list(self.modules.values()):
            v = m.ns.get(name)
            if isinstance(v, Cls) and v.name == name and v not in hits:
                if pkg is None or v.module.name.startswith(pkg):
                    hits.append(v)
        if not hits:
            raise KeyError("class %s not found" % name)
        return hits[0]

    def all_classes(self, pkg=None):
        seen = []
        for m in list(self.modules.values()):
            for v in m.ns.values():
                if isinstance(v, Cls) and v not in seen and v.module is m and (pkg is None or m.name.startswith(pkg)):
                    seen.append(v)
        return seen

    def mark_origin(self, v, label, depth=4):
        if isinstance(v, (list, dict, set, np.ndarray)):
            if id(v) not in self.origin:
                self.origin[id(v)] = label
                self.keep.append(v)
            if depth > 0:
                if isinstance(v, dict):
                    for x in v.values():
                        self.mark_origin(x, label, depth - 1)
                elif isinstance(v, list):
                    for x in v:
                        self.mark_origin(x, label, depth - 1)
        elif isinstance(v, tuple):
            for x in v:
                self.mark_origin(x, label, depth - 1)
        elif isinstance(v, Obj) and depth > 0:
            if id(v.attrs) not in self.origin:
                self.origin[id(v.attrs)] = label
                self.keep.append(v.attrs)
                for x in v.attrs.values():
                    self.mark_origin(x, label, depth - 1)

    # ------------------------------------------------------------------ journal / state forks
    def log_dict(self, d, k):
        """Before a store in a dictionary of the analysed program."""
        if self.origin.get(id(d)) is not None:
            self.event("mutate_shared", self.origin[id(d)], [k], {}, obj=d)
        if self.journals:
            self.journals[-1].append(("m", d, k, d.get(k, UNDEF)))

    def log_slot(self, d, k):
        """Before a store in a name space (local variables, attributes)."""
        if self.origin.get(id(d)) is not None:
            self.event("mutate_shared", self.origin[id(d)], [k], {}, obj=d)
        if self.journals:
            self.journals[-1].append(("d", d, k, d.get(k, UNDEF)))

    def log_list(self, l):
        if isinstance(l, Endless):
            return self.log_slot(l.state, "n")
        if self.origin.get(id(l)) is not None:
            self.event("mutate_shared", self.origin[id(l)], [], {}, obj=l)
        if self.journals:
            self.journals[-1].append(("l", l, None, list(l)))

    def log_set(self, s):
        if self.origin.get(id(s)) is not None:
            self.event("mutate_shared", self.origin[id(s)], [], {}, obj=s)
        if self.journals:
            self.journals[-1].append(("s", s, None, set(s)))

    def log_arr(self, a):
        b = a
        while isinstance(b.base, np.ndarray):
            if self.origin.get(id(b)) is not None:
                break
            b = b.base
        if self.origin.get(id(b)) is not None:
            self.event("mutate_shared", self.origin[id(b)], [], {}, obj=b)
        while isinstance(b.base, np.ndarray):
            b = b.base
        if self.journals:
            self.journals[-1].append(("n", b, None, b.copy()))

    def _capture(self, j):
        cells = {}
        for kind, obj, k, old in j:
            key = (kind, id(obj), k)
            if key in cells:
                continue
            if kind in "dm":
                cells[key] = (obj, obj.get(k, UNDEF))
            elif kind == "l":
                cells[key] = (obj, list(obj))
            elif kind == "s":
                cells[key] = (obj, set(obj))
            else:
                cells[key] = (obj, obj.copy())
        return cells

    def _undo(self, j):
        for kind, obj, k, old in reversed(j):
            if kind in "dm":
                if old is UNDEF:
                    obj.pop(k, None)
                else:
                    obj[k] = old
            elif kind == "l":
                obj[:] = old
            elif kind == "s":
                obj.clear()
                obj.update(old)
            else:
                obj[...] = old

    def _apply(self, cells):
        saved = self.origin
        self.origin = {}
        try:
            for (kind, _, k), (obj, val) in cells.items():
                self._write_cell(kind, obj, k, val)
        finally:
            self.origin = saved

    def _write_cell(self, kind, obj, k, val):
        if kind in "dm":
            (self.log_slot if kind == "d" else self.log_dict)(obj, k)
            if val is UNDEF:
                obj.pop(k, None)
            else:
                obj[k] = val
        elif kind == "l":
            self.log_list(obj)
            obj[:] = val
        elif kind == "s":
            self.log_set(obj)
            obj.clear()
            obj.update(val)
        else:
            self.log_arr(obj)
            obj[...] = val

    def scratch(self):
        """Context manager: run and then undo every effect (events are kept)."""
        return _Scratch(self)

    def add_fact(self, c, val):
        if not isinstance(c, T):
            return
        self.facts.append((c, val))
        self.factd.setdefault(c, []).append(val)
        if c.op == "not":
            self.add_fact(c.args[0], not val)
        elif c.op == "and" and val:
            for x in c.args:
                self.add_fact(x, True)

    def _restore_facts(self, n):
        while len(self.facts) > n:
            c, v = self.facts.pop()
            self.factd[c].pop()

    def known(self, c):
        """Truth of a condition under the current facts, or None."""
        if not isinstance(c, T):
            return bool(c)
        f = self.factd.get(c)
        if f:
            return f[-1]
        if c.op == "not":
            k = self.known(c.args[0])
            return None if k is None else not k
        if c.op == "and":
            res = True
            for x in c.args:
                k = self.known(x)
                if k is False:
                    return False
                if k is None:
                    res = None
            return res
        if c.op == "eq" and self.facts:
            a, b = c.args
            for x, y in ((a, b), (b, a)):
                l = tm._table.get(("lt", (x, y)))
                if l is not None and self.factd.get(l) and self.factd[l][-1]:
                    return False
            # x == k1 known, ask x == k2
            for (f, v) in self.facts:
                if v and f.op == "eq":
                    p, q = f.args
                    for x, kx in ((p, q), (q, p)):
                        for y, ky in ((a, b), (b, a)):
                            if x is y and not isinstance(kx, T) and not isinstance(ky, T) and kx != ky:
                                return False
        if c.op == "lt" and self.facts:
            a, b = c.args
            r = tm._table.get(("lt", (b, a)))
            if r is not None and self.factd.get(r) and self.factd[r][-1]:
                return False
            for (f, v) in self.facts:
                if v and f.op == "eq":
                    p, q = f.args
                    for x, kx in ((p, q), (q, p)):
                        if isinstance(kx, T):
                            continue
                        if x is a and not isinstance(b, T):
                            return kx < b
                        if x is b and not isinstance(a, T):
                            return a < kx
        return None

    def fork(self, c, f_then, f_else, join=None):
        """Run both alternatives from the current state and join their results and effects."""
        join = join or self.merge
        k = self.known(c)
        if k is True:
            return f_then()
        if k is False:
            return f_else()
        res, cells, exc = [None, None], [None, None], [None, None]
        for i, (f, val) in enumerate(((f_then, True), (f_else, False))):
            j = []
            self.journals.append(j)
            nf = len(self.facts)
            self.add_fact(c, val)
            self.guards.append((c, val))
            try:
                res[i] = f()
            except AbsRaise as e:
                exc[i] = e
            finally:
                self.guards.pop()
                self._restore_facts(nf)
                self.journals.pop()
            cells[i] = self._capture(j)
            self._undo(j)
        return self._join(c, res, cells, exc, join)

    def _join(self, c, res, cells, exc, join):
        if exc[0] and exc[1]:
            raise exc[0]
        for i in (0, 1):
            if exc[i]:
                self.event("raise", exc_name(exc[i].exc), [], {}, guards=tuple(self.guards) + ((c, i == 0),))
                self._apply(cells[1 - i])
                self.add_fact(c, i != 0)
                return res[1 - i]
        saved, self.origin = self.origin, {}
        try:
            keys = list(cells[0]) + [k for k in cells[1] if k not in cells[0]]
            for key in keys:
                kind, _, k = key
                obj = (cells[0].get(key) or cells[1].get(key))[0]
                cur = self._current(kind, obj, k)
                v0 = cells[0][key][1] if key in cells[0] else cur
                v1 = cells[1][key][1] if key in cells[1] else cur
                self._write_cell(kind, obj, k, self._merge_cell(kind, c, v0, v1))
        finally:
            self.origin = saved
        return join(c, res[0], res[1])

    def _current(self, kind, obj, k):
        if kind in "dm":
            return obj.get(k, UNDEF)
        if kind == "l":
            return list(obj)
        if kind == "s":
            return set(obj)
        return obj.copy()

    def _merge_cell(self, kind, c, a, b):
        if kind in "dm":
            return self.merge(c, a, b)
        if kind == "l":
            if len(a) == len(b):
                return [self.merge(c, x, y) for x, y in zip(a, b)]
            self.degrade("list of branch-dependent length")
            n = min(len(a), len(b))
            return [self.merge(c, x, y) for x, y in zip(a, b)] + [self.unknown("element") for _ in list(a[n:]) + list(b[n:])]
        if kind == "s":
            return a | b
        if a.shape == b.shape:
            return self.merge(c, a, b)
        return a

    def _lossy(self, cells):
        """Do the two sides leave a list of different lengths, or a dictionary with different keys?"""
        for key in list(cells[0]) + [k for k in cells[1] if k not in cells[0]]:
            kind, _, k = key
            if kind not in "lm":
                continue
            obj = (cells[0].get(key) or cells[1].get(key))[0]
            cur = self._current(kind, obj, k)
            v = [cells[i][key][1] if key in cells[i] else cur for i in (0, 1)]
            if len(v[0]) != len(v[1]) if kind == "l" else (v[0] is UNDEF) != (v[1] is UNDEF):
                return True
        return False

    def merge(self, c, a, b):
        if a is b:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        sa, sb = is_scalar(a), is_scalar(b)
        if (isinstance(a, Cplx) and (sb or isinstance(b, Cplx))) or (isinstance(b, Cplx) and sa):
            a, b = Cplx.of(a), Cplx.of(b)
            return Cplx(tm.ite(c, a.re, b.re), tm.ite(c, a.im, b.im))
        if sa and sb:
            return tm.ite(c, unnp(a), unnp(b))
        if isinstance(a, U) and sb:
            return tm.ite(c, a.term, unnp(b))
        if isinstance(b, U) and sa:
            return tm.ite(c, unnp(a), b.term)
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape:
            return elementwise(lambda x, y: self.merge(c, x, y), a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge(c, x, y) for x, y in zip(a, b))
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            return [self.merge(c, x, y) for x, y in zip(a, b)]
        if isinstance(a, (str, type(None))) and isinstance(b, (str, type(None))) and a == b:
            return a
        if isinstance(a, np.ndarray) and a.size == 1 and sb and a.ndim <= 1:
            return elementwise(lambda x: self.merge(c, x, b), a)
        if isinstance(b, np.ndarray) and b.size == 1 and sa and b.ndim <= 1:
            return elementwise(lambda x: self.merge(c, a, x), b)
        if isinstance(a, Bound) and isinstance(b, Bound) and a.func is b.func and a.self_ is b.self_:
            return a
        if isinstance(a, Phi) and a.c is c:
            a = a.a
        if isinstance(b, Phi) and b.c is c:
            b = b.b
        return a if a is b else Phi(c, a, b)

    def lift(self, v, f):
        if isinstance(v, Phi):
            return self.fork(v.c, lambda: self.lift(v.a, f), lambda: self.lift(v.b, f))
        return f(v)

    def res(self, v):
        while isinstance(v, Phi):
            k = self.known(v.c)
            if k is None:
                return v
            v = v.a if k else v.b
        if isinstance(v, T) and v.op == "ite" and self.facts:
            k = self.known(v.args[0])
            if k is not None:
                return self.res(v.args[1] if k else v.args[2])
        return v

    # ------------------------------------------------------------------ bookkeeping
    def event(self, kind, name, args=(), kwargs=None, obj=None, guards=None):
        e = Event(kind, name, list(args), dict(kwargs or {}), tuple(self.guards) if guards is None else guards, self.loc(), self.loop, obj, tuple(f.func for f in self.stack if f.func is not None))
        e.seq = len(self.events)
        self.events.append(e)
        return e

    def loc(self):
        for fr in reversed(self.stack):
            if fr.module is not None and fr.node is not None:
                q = fr.func.qualname if fr.func else "<module>"
                return "%s:%s %s" % (short_path(fr.module.path), getattr(fr.node, "lineno", "?"), q)
        return "?"

    def degrade(self, why):
        self.degraded.append("%s @%s" % (why, self.loc()))

    def unknown(self, name, why=None):
        if why:
            self.degrade(why)
        return U("?" + name + "#%d" % len(self.degraded), dom="unknown")

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts):
        i = 0
        n = len(stmts)
        while i < n:
            s = stmts[i]
            if isinstance(s, ast.If):
                self.stmts += 1
                self.stack[-1].node = s
                c = self.truth(self.eval(s.test))
                k = self.known(c)
                if k is None:
                    comp, consumed = self._exec_if_sym(c, s.body, s.orelse, stmts[i + 1 :])
                    if consumed or (comp is not None and comp[0] != "mix"):
                        return comp
                    if comp is not None:
                        rest = stmts[i + 1 :]
                        return self._cont(comp, lambda: self.exec_block(rest)) if rest else comp
                else:
                    comp = self.exec_block(s.body if k else s.orelse)
                    if comp is not None:
                        if comp[0] == "mix":
                            rest = stmts[i + 1 :]
                            return self._cont(comp, lambda: self.exec_block(rest)) if rest else comp
                        return comp
            else:
                comp = self.exec_stmt(s)
                if comp is not None:
                    if comp[0] == "mix":
                        rest = stmts[i + 1 :]
                        return self._cont(comp, lambda: self.exec_block(rest)) if rest else comp
                    return comp
            i += 1
        return None

    def _exec_if_sym(self, c, body, orelse, rest):
        """Symbolic if.  When exactly one side leaves the block, the rest is analysed inside the other side."""
        consumed = [False]

        def more(comp, cells, exc, run):
            abn = [exc[i] is not None or comp[i] is not None for i in (0, 1)]
            if abn[0] != abn[1] and exc[0] is None and exc[1] is None and rest:
                i = 1 if abn[0] else 0
                if comp[1 - i][0] not in ("mix", "go"):
                    run(i, lambda: self.exec_block(rest), pre=cells[i])
                    consumed[0] = True

        r = self._sides(c, lambda: self.exec_block(body), lambda: self.exec_block(orelse), more)
        return r, consumed[0]

    def _sides(self, c, f_then, f_else, more=None):
        """Both sides of a condition at statement level.

        Sides whose effects have no common representation (lists of different lengths) stay apart: their effects are
        kept pending in "go" completions and the statements that follow are analysed once per side."""
        comp, cells, exc = [None, None], [None, None], [None, None]

        def run(i, f, pre=None):
            j = []
            self.journals.append(j)
            nf = len(self.facts)
            self.add_fact(c, i == 0)
            self.guards.append((c, i == 0))
            self.sides += 1
            try:
                if pre is not None:
                    self._apply(pre)
                comp[i] = f()
            except AbsRaise as e:
                if self.stack[-1].tries and any(self._handles(h, e) for h in self.stack[-1].tries[-1].handlers):
                    comp[i] = ("exc", e)
                else:
                    exc[i] = e
            finally:
                self.sides -= 1
                self.guards.pop()
                self._restore_facts(nf)
                self.journals.pop()
            cells[i] = self._capture(j)
            self._undo(j)

        run(0, f_then)
        run(1, f_else)
        if more is not None:
            more(comp, cells, exc, run)
        if exc[0] is None and exc[1] is None and self.sides < 6 and self.stack[-1].func is not None and self._lossy(cells):
            return ("mix", c, ("go", cells[0], comp[0]), ("go", cells[1], comp[1]))
        return self._join(c, comp, cells, exc, self._join_comp)

    def _join_comp(self, c, a, b):
        if a is None and b is None:
            return None
        if a is not None and b is not None and a[0] == b[0] and a[0] not in ("mix", "go", "exc"):
            if a[0] == "ret":
                return ("ret", self.merge(c, a[1], b[1]))
            return a
        return ("mix", c, a, b)

    def _cont(self, comp, k):
        """The statements k after a statement that completed with comp."""
        if comp is None:
            return k()
        if comp[0] == "go":
            self._apply(comp[1])
            return self._cont(comp[2], k)
        if comp[0] != "mix":
            return comp
        _, c, a, b = comp
        known = self.known(c)
        if known is not None:
            return self._cont(a if known else b, k)
        return self._sides(c, lambda: self._cont(a, k), lambda: self._cont(b, k))

    def settle(self, comp):
        """Apply the pending effects of a completion: the value returned, None if nothing is returned."""
        if comp is None:
            return None
        if comp[0] == "ret":
            return comp[1]
        if comp[0] == "go":
            self._apply(comp[1])
            v = self.settle(comp[2])
            if isinstance(v, (list, dict, IterBox)) and any(o is (v.items if isinstance(v, IterBox) else v) for (kind, _, _), (o, _) in comp[1].items() if kind in "lm"):
                v = IterBox(v.items) if isinstance(v, IterBox) else type(v)(v)
            return v
        if comp[0] == "mix":
            k = self.known(comp[1])
            if k is not None:
                return self.settle(comp[2] if k else comp[3])
            if pending(comp):
                return self.fork(comp[1], lambda: self.settle(comp[2]), lambda: self.settle(comp[3]))
            return self.merge(comp[1], self.settle(comp[2]), self.settle(comp[3]))
        if comp[0] == "exc":
            raise comp[1]
        return None

    def exec_stmt(self, s):
        self.stmts += 1
        fr = self.stack[-1]
        fr.node = s
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.degrade("statement " + type(s).__name__)
            return None
        return m(s)

    def s_Expr(self, s):
        self.eval(s.value)

    def s_Pass(self, s):
        pass

    def s_Break(self, s):
        return ("brk",)

    def s_Continue(self, s):
        return ("cont",)

    def s_Return(self, s):
        return ("ret", self.eval(s.value) if s.value is not None else None)

    def s_Global(self, s):
        self.stack[-1].globals_decl.update(s.names)

    def s_Nonlocal(self, s):
        self.stack[-1].nonlocals.update(s.names)

    def s_Import(self, s):
        for a in s.names:
            v = self.load(a.name)
            if a.asname:
                self.store_name(a.asname, v)
            else:
                top = a.name.split(".")[0]
                self.store_name(top, self.load(top))

    def s_ImportFrom(self, s):
        mod = self.stack[-1].module
        if s.level:
            base = mod.name.split(".")
            if not mod.is_pkg:
                base = base[:-1]
            base = base[: len(base) - (s.level - 1)]
            name = ".".join(base + ([s.module] if s.module else []))
        else:
            name = s.module
        m = self.load(name)
        for a in s.names:
            if a.name == "*":
                if isinstance(m, Module):
                    names = m.ns.get("__all__") or [k for k in m.ns if not k.startswith("_")]
                    for k in names:
                        if k in m.ns:
                            self.store_name(k, m.ns[k])
                continue
            if isinstance(m, Ext):
                v = self.getattr(m, a.name)
            elif a.name in m.ns:
                v = m.ns[a.name]
            else:
                sub = name + "." + a.name
                if self.module_path(sub)[0]:
                    v = self.load(sub)
                else:
                    raise AbsRaise("ImportError: cannot import %s from %s" % (a.name, name), self.loc())
            self.store_name(a.asname or a.name, v)

    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        fr = self.stack[-1]
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))
        if isinstance(s.target, ast.Name) and "__dc_fields__" in fr.locals:
            fr.locals["__dc_fields__"].append(s.target.id)

    def s_AugAssign(self, s):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t))
            v = self.inplace(op, cur, self.eval(s.value))
            self.store_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            cur = self.getattr(o, t.attr)
            v = self.inplace(op, cur, self.eval(s.value))
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            ix = self.eval_index(t.slice)
            cur = self.getitem(o, ix)
            v = self.inplace(op, cur, self.eval(s.value))
            self.setitem(o, ix, v)
        else:
            self.degrade("augassign target")

    def inplace(self, op, cur, val):
        cur = self.res(cur)
        if isinstance(cur, Phi):
            return self.lift(cur, lambda x: self.inplace(op, x, val))
        if isinstance(cur, list) and op == "Add":
            items = self.iterate(val)
            if items is None:
                self.degrade("list += unknown")
                return cur
            self.log_list(cur)
            cur.extend(items)
            return cur
        if isinstance(cur, np.ndarray):
            new = self.binop(op, cur, val)
            if isinstance(new, np.ndarray) and new.shape == cur.shape:
                self.log_arr(cur)
                cur[...] = new
                return cur
            if not isinstance(new, np.ndarray):
                if cur.shape == ():
                    self.log_arr(cur)
                    cur[()] = new
                    return cur
                return new
            raise AbsRaise("ValueError: in-place shape mismatch", self.loc())
        if isinstance(cur, dict) and op == "BitOr":
            for k, v in val.items():
                self.setitem(cur, k, v)
            return cur
        if isinstance(cur, set) and op == "BitOr":
            self.log_set(cur)
            cur.update(val)
            return cur
        if isinstance(cur, Obj) and isinstance(cur.cls, Cls):
            f, _ = cur.cls.lookup("__i%s__" % DUNDER[op])
            if f is not None:
                return self.call(self.getattr(cur, "__i%s__" % DUNDER[op]), [val], {})
        return self.binop(op, cur, val)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                d = self.stack[-1].locals
                self.log_slot(d, t.id)
                d.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value)
                ix = self.eval_index(t.slice)
                if isinstance(o, dict):
                    if ix not in o:
                        raise AbsRaise("KeyError: %r" % (ix,), self.loc())
                    self.log_dict(o, ix)
                    del o[ix]
                elif isinstance(o, list) and not isinstance(ix, (T, U)):
                    self.log_list(o)
                    del o[ix]
                else:
                    self.degrade("del")
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value)
                if isinstance(o, Obj):
                    self.log_slot(o.attrs, t.attr)
                    o.attrs.pop(t.attr, None)

    def s_If(self, s):
        return self.exec_block([s])

    def s_Assert(self, s):
        c = self.truth(self.eval(s.test))
        k = self.known(c)
        if k is False:
            raise AbsRaise("AssertionError", self.loc())
        if k is None:
            self.event("assert", "assert", [c])
            self.event("raise", "AssertionError", [], {}, guards=tuple(self.guards) + ((c, False),))
            self.add_fact(c, True)

    def s_Raise(self, s):
        if s.exc is None and self.stack[-1].handling:
            raise self.stack[-1].handling[-1]
        v = self.eval(s.exc) if s.exc is not None else "Exception"
        if s.cause is not None:
            v = self.exc_obj(v)
            if isinstance(v, Obj):
                v.attrs["__cause__"] = self.exc_obj(self.eval(s.cause))
        raise AbsRaise(v, self.loc())

    def s_Try(self, s):
        fr = self.stack[-1]
        fr.tries.append(s)
        try:
            try:
                comp = self.exec_block(s.body)
            finally:
                fr.tries.pop()
        except AbsRaise as e:
            comp = ("exc", e)
        else:
            if s.orelse:
                comp = self._cont(comp, lambda: self.exec_block(s.orelse))
        comp = self._caught(s, comp)
        if s.finalbody:
            c2 = self.exec_block(s.finalbody)
            if c2 is not None:
                return self.settle(c2) if c2[0] == "exc" else c2
        if comp is not None and comp[0] == "exc":
            if fr.tries:
                return comp
            raise comp[1]
        return comp

    def _caught(self, s, comp):
        if comp is None:
            return None
        if comp[0] == "go":
            self._apply(comp[1])
            return self._caught(s, comp[2])
        if comp[0] == "mix" and raising(comp):
            return self._sides(comp[1], lambda: self._caught(s, comp[2]), lambda: self._caught(s, comp[3]))
        if comp[0] == "exc":
            e = comp[1]
            for h in s.handlers:
                if self._handles(h, e):
                    if h.name:
                        self.store_name(h.name, self.exc_obj(e.exc))
                    fr = self.stack[-1]
                    fr.handling.append(e)
                    try:
                        return self.exec_block(h.body)
                    except AbsRaise as e2:
                        return ("exc", e2)
                    finally:
                        fr.handling.pop()
        return comp

    def exc_obj(self, exc):
        """The exception object of a raise, also of one that the analysed operation itself raises."""
        if not isinstance(exc, str):
            exc = self.res(exc)
            if isinstance(exc, (Ext, Cls)):
                o = Obj(exc)
                o.attrs["args"] = ()
                return o
            return exc
        n, _, text = exc.partition(":")
        o = Obj(Ext("builtins." + n.strip()))
        o.attrs["args"] = (text.strip(),) if text else ()
        return o

    def _handles(self, h, e, types=None):
        if h.type is None:
            return True
        t = self.eval(h.type) if types is None else types
        names = [exc_name(x) for x in (t if isinstance(t, tuple) else (t,))]
        n = exc_name(e.exc)
        for x in names:
            if x in ("Exception", "BaseException") or x == n:
                return True
            a, b = getattr(pybuiltins, x, None), getattr(pybuiltins, n, None)
            if isinstance(a, type) and isinstance(b, type) and issubclass(b, a):
                return True
        return False

    def s_With(self, s):
        return self._with(s, 0)

    def _with(self, s, i):
        if i == len(s.items):
            return self.exec_block(s.body)
        item = s.items[i]
        v = self.res(self.eval(item.context_expr))

        def body(value):
            if item.optional_vars is not None:
                self.assign(item.optional_vars, value)
            return self._with(s, i + 1)

        if isinstance(v, Obj) and isinstance(v.cls, Cls) and v.cls.lookup("__enter__")[1] is not None:
            leave = lambda e: self.call(self.getattr(v, "__exit__"), [None, None, None] if e is None else [self.exc_obj(e.exc).cls, self.exc_obj(e.exc), None], {})
            value = self.call(self.getattr(v, "__enter__"), [], {})
            try:
                comp = body(value)
            except AbsRaise as e:
                t = self.truth(leave(e))
                if self.known(t) is True:
                    return None
                raise
            if comp is not None and comp[0] == "exc":
                t = self.truth(leave(comp[1]))
                return None if self.known(t) is True else comp
            comp = self._keep(comp)
            leave(None)
            return comp
        if isinstance(v, Suppress):
            try:
                return body(None)
            except AbsRaise as e:
                if self._handles(ast.ExceptHandler(type=ast.Constant(value=None)), e, v.types):
                    return None
                raise
        if isinstance(v, Manager):
            out = []
            v.run(self, lambda value: out.append(body(value)))
            return out[0] if out else None
        if isinstance(v, Obj) and v.extname == "contextlib.nullcontext":
            return body(v.attrs.get("value"))
        return body(v)

    def _keep(self, comp):
        """Settle the pending effects of a completion but keep where it leads."""
        if comp is None or not pending(comp):
            return comp
        return ("ret", self.settle(comp)) if returns(comp) else (self.settle(comp), None)[1]

    def s_For(self, s):
        it = self.res(self.eval(s.iter))
        return self._for(s, it)

    def _for(self, s, it):
        if isinstance(it, Phi):
            return self._sides(it.c, lambda: self._for(s, it.a), lambda: self._for(s, it.b))
        if isinstance(it, IterBox) and isinstance(it.items, Endless):
            return self._loop_items(s, Taken(self, it.items), 0)
        items = self.iterate(it)
        if items is None:
            return self._unknown_loop(s, it)
        return self._loop_items(s, items, 0)

    def _loop_items(self, s, items, i):
        while i < len(items):
            self.assign(s.target, items[i])
            comp = self.exec_block(s.body)
            if comp is None or comp[0] == "cont":
                i += 1
                continue
            if comp[0] == "brk":
                return None
            if comp[0] == "ret":
                return comp
            nxt = i + 1

            def handle(cp):
                if cp is None or cp[0] == "cont":
                    return self._loop_items(s, items, nxt)
                if cp[0] == "brk":
                    return None
                if cp[0] == "go":
                    self._apply(cp[1])
                    return handle(cp[2])
                if cp[0] == "mix":
                    k = self.known(cp[1])
                    if k is not None:
                        return handle(cp[2] if k else cp[3])
                    return self._sides(cp[1], lambda: handle(cp[2]), lambda: handle(cp[3]))
                return cp

            return handle(comp)
        if s.orelse:
            return self.exec_block(s.orelse)
        return None

    def _unknown_loop(self, s, it):
        name = it.name if isinstance(it, (U, Mock)) else (tm.show(it) if isinstance(it, T) else "iter")
        j = []
        self.journals.append(j)
        self.loop += 1
        c = tm.fresh("loop:" + name, "bool")
        self.guards.append((c, True))
        try:
            if isinstance(s, ast.For):
                self.assign(s.target, self.elem_of(it))
            comp = self._keep(self.exec_block(s.body))
        except AbsRaise:
            comp = None
        finally:
            self.guards.pop()
            self.loop -= 1
            self.journals.pop()
        cells = self._capture(j)
        self._undo(j)
        saved, self.origin = self.origin, {}
        try:
            for (kind, _, k), (obj, val) in cells.items():
                if kind in "dm":
                    old = obj.get(k, UNDEF)
                    self._write_cell(kind, obj, k, self.havoc(val, old, str(k)))
                elif kind == "n":
                    self._write_cell(kind, obj, k, elementwise(lambda x: tm.fresh("havoc", "havoc"), val))
                else:
                    self._write_cell(kind, obj, k, val)
        finally:
            self.origin = saved
        if s.orelse:
            self.settle(self.exec_block(s.orelse))
        if comp is not None and comp[0] == "ret":
            return ("mix", c, comp, None)
        return None

    def havoc(self, val, old, name):
        if is_scalar(val):
            if val is old or (not isinstance(val, T) and not isinstance(old, T) and val == old and old is not UNDEF):
                return val
            return tm.fresh("havoc." + name, "havoc")
        if isinstance(val, np.ndarray):
            return elementwise(lambda x: tm.fresh("havoc." + name, "havoc"), val)
        if isinstance(val, (U,)):
            return U("havoc." + name, dom="havoc")
        return val

    def elem_of(self, it):
        if isinstance(it, U):
            return self.getitem(it, "*")
        if isinstance(it, T):
            return tm.fn("item", it, tm.fresh("i", "int"))
        if isinstance(it, SymRange):
            return tm.fresh("i", "int")
        return U("elem", dom="unknown")

    def s_While(self, s):
        return self._while(s, 0, 0)

    def _while(self, s, n, sym):
        """Rounds with a decided condition are unrolled; up to six rounds with an undecided one are analysed per side."""
        while n < 3000:
            n += 1
            c = self.truth(self.eval(s.test))
            k = self.known(c)
            if k is False:
                return self.exec_block(s.orelse) if s.orelse else None
            if k is None:
                if sym >= 6 or self.sides > 12:
                    return self._unknown_loop(s, U("while"))
                return self._sides(c, lambda: self._round(s, n, sym + 1), lambda: self.exec_block(s.orelse) if s.orelse else None)
            comp = self.exec_block(s.body)
            if comp is None or comp[0] == "cont":
                continue
            return self._after(s, comp, n, sym)
        self.degrade("loop bound")
        return None

    def _round(self, s, n, sym):
        return self._after(s, self.exec_block(s.body), n, sym)

    def _after(self, s, cp, n, sym):
        if cp is None or cp[0] == "cont":
            return self._while(s, n, sym)
        if cp[0] == "brk":
            return None
        if cp[0] == "go":
            self._apply(cp[1])
            return self._after(s, cp[2], n, sym)
        if cp[0] == "mix":
            k = self.known(cp[1])
            if k is not None:
                return self._after(s, cp[2] if k else cp[3], n, sym)
            if n > 60 or self.sides > 40:
                self.degrade("while nesting")
                return None
            return self._sides(cp[1], lambda: self._after(s, cp[2], n, sym), lambda: self._after(s, cp[3], n, sym))
        return cp

    def s_FunctionDef(self, s):
        f = self.make_func(s)
        for d in reversed(s.decorator_list):
            f = self.decorate(d, f)
        self.store_name(s.name, f)

    s_AsyncFunctionDef = s_FunctionDef

    def make_func(self, s, name=None):
        fr = self.stack[-1]
        defaults = [self.eval(d) for d in s.args.defaults]
        kwd = [self.eval(d) if d is not None else UNDEF for d in s.args.kw_defaults]
        scope = fr
        while scope is not None and "__classbody__" in scope.locals:
            scope = scope.enclosing
        f = Func(s, fr.module, scope if scope is not None and scope.func is not None else None, name or s.name, fr.cls if "__classbody__" in fr.locals else None, defaults, kwd)
        for d in defaults + [k for k in kwd if k is not UNDEF]:
            self.mark_origin(d, "default argument of " + f.qualname)
            if isinstance(d, Obj):
                self.mark_origin(d, "default argument of " + f.qualname)
        return f

    def decorate(self, d, f):
        if isinstance(d, ast.Name) and d.id in ("property",):
            return Prop(f)
        if isinstance(d, ast.Name) and d.id == "staticmethod":
            return StaticM(f)
        if isinstance(d, ast.Name) and d.id == "classmethod":
            return ClassM(f)
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
            p = self.eval(d.value)
            if isinstance(p, Prop):
                return Prop(p.fget, f) if d.attr == "setter" else p
        v = self.eval(d)
        if isinstance(v, Ext):
            n = v.name
            if n.endswith("abstractmethod") or n.startswith("typing") or n.endswith("override"):
                return f
            if n.endswith("abstractproperty"):
                return Prop(f)
            if n.endswith("cached_property"):
                return Cached(f)
            if n.endswith("lru_cache") or n.endswith("functools.cache"):
                return memoised(f)
            if n.endswith("contextmanager"):
                return Native(f.name, lambda it, a, k: Manager(f, a, k))
            if n.endswith("dataclass"):
                if isinstance(f, Cls):
                    f.dataclass = True
                return f
        if isinstance(v, Native):
            return v.fn(self, [f], {})
        if isinstance(v, (Func, Bound, Cls)) or isinstance(v, Obj) and isinstance(v.cls, Cls):
            return self.call(v, [f], {})
        self.degrade("decorator")
        return f

    def s_ClassDef(self, s):
        fr = self.stack[-1]
        bases, named = [], False
        for b in s.bases:
            v = self.eval(b)
            if isinstance(v, Ext) and v.name.endswith("typing.NamedTuple"):
                named = True
                bases.append(self.tuple_class())
            elif isinstance(v, (Cls, Ext)):
                bases.append(v)
            elif isinstance(v, BT) and v.name == "object":
                pass
            elif isinstance(v, BT):
                bases.append(Ext("builtins." + v.name))
            else:
                self.degrade("base class")
        ns = {}
        cls = Cls(s.name, bases, ns, fr.module, s)
        body = Frame(fr.func, fr.module, ns, cls, fr.parent)
        ns["__classbody__"] = True
        ns["__dc_fields__"] = []
        ns["__module__"] = fr.module.name
        body.func = None
        body.enclosing = fr
        self.stack.append(body)
        try:
            self.settle(self.exec_block(s.body))
        finally:
            self.stack.pop()
        ns.pop("__classbody__", None)
        cls.fields = ns.pop("__dc_fields__", [])
        if named:
            cls.dataclass = True
            ns["_fields"] = tuple(cls.fields)
        for k, v in ns.items():
            if isinstance(v, Func):
                v.cls = cls
        for k, v in list(ns.items()):
            if isinstance(v, (list, dict, set, np.ndarray, tuple, Obj)):
                self.mark_origin(v, "class attribute %s.%s" % (s.name, k))
        if any(isinstance(b, Ext) and b.name.startswith("enum.") for b in cls.mro if not isinstance(b, Cls)):
            self.make_enum(cls, [(k, v) for k, v in ns.items() if not k.startswith("_") and not isinstance(v, (Func, Prop, StaticM, ClassM))])
        for k, v in list(ns.items()):
            if isinstance(v, Obj) and isinstance(v.cls, Cls) and v.cls.lookup("__set_name__")[1] is not None:
                self.call(self.getattr(v, "__set_name__"), [cls, k], {})
        hook, owner = cls.lookup("__init_subclass__", after=cls)
        if isinstance(hook, (Func, ClassM)):
            self.call_func(hook.f if isinstance(hook, ClassM) else hook, [cls], {k.arg: self.eval(k.value) for k in s.keywords if k.arg not in (None, "metaclass")}, self_=cls)
        out = cls
        for d in reversed(s.decorator_list):
            out = self.decorate(d, out)
        self.store_name(s.name, out)

    def tuple_class(self):
        """Base class with the tuple protocol over the fields of a named tuple."""
        if "%namedtuple" not in self.modules:
            self.load_text("%namedtuple", NAMEDTUPLE)
        return self.modules["%namedtuple"].ns["TupleBase"]

    def named_tuple(self, name, fields, defaults=()):
        c = Cls(name, [self.tuple_class()], {"_fields": tuple(fields)}, self.stack[-1].module, None)
        c.dataclass, c.fields = True, list(fields)
        for f, d in zip(list(fields)[len(fields) - len(defaults):], defaults):
            c.ns[f] = d
        return c

    def s_Match(self, s):
        subj = self.eval(s.subject)
        return self._match(subj, s.cases, 0)

    def _match(self, subj, cases, i):
        if i >= len(cases):
            return None
        c = self._pattern(subj, cases[i].pattern)
        if c is None:
            self.degrade("match pattern")
            return None
        if cases[i].guard is not None:
            c = tm.and_(c, self.truth(self.eval(cases[i].guard)))
        k = self.known(c)
        if k is True:
            return self.exec_block(cases[i].body)
        if k is False:
            return self._match(subj, cases, i + 1)
        return self._sides(c, lambda: self.exec_block(cases[i].body), lambda: self._match(subj, cases, i + 1))

    def _pattern(self, subj, p):
        subj = self.res(subj)
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare("Eq", subj, self.eval(p.value)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare("Is", subj, p.value))
        if isinstance(p, ast.MatchAs):
            c = True if p.pattern is None else self._pattern(subj, p.pattern)
            if p.name:
                self.store_name(p.name, subj)
            return c
        if isinstance(p, ast.MatchOr):
            cs = [self._pattern(subj, q) for q in p.patterns]
            return None if any(c is None for c in cs) else tm.or_(*cs)
        if isinstance(subj, (U, Phi)):
            return None
        if isinstance(p, ast.MatchSequence):
            if not isinstance(subj, (list, tuple, Deque, range)):
                return False
            items = self.iterate(subj)
            star = [k for k, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if not star:
                return self._patterns(zip(items, p.patterns)) if len(items) == len(p.patterns) else False
            k, after = star[0], len(p.patterns) - star[0] - 1
            if len(items) < k + after:
                return False
            if p.patterns[k].name:
                self.store_name(p.patterns[k].name, items[k:len(items) - after])
            return self._patterns(list(zip(items[:k], p.patterns[:k])) + list(zip(items[len(items) - after:], p.patterns[k + 1:])))
        if isinstance(p, ast.MatchMapping):
            if not isinstance(subj, dict):
                return False
            keys = [self.hashkey(self.eval(k)) for k in p.keys]
            if any(k not in subj for k in keys):
                return False
            if p.rest:
                self.store_name(p.rest, {k: v for k, v in subj.items() if k not in keys})
            return self._patterns((subj[k], q) for k, q in zip(keys, p.patterns))
        if isinstance(p, ast.MatchClass):
            cls = self.eval(p.cls)
            c = self.truth(self.call(self.builtins["isinstance"], [subj, cls], {}))
            if c is False or not isinstance(c, bool):
                return c if c is False else None
            if isinstance(cls, BT):
                return self._patterns([(subj, q) for q in p.patterns]) if len(p.patterns) <= 1 and not p.kwd_attrs else None
            names = []
            if p.patterns:
                v, owner = cls.lookup("__match_args__")
                names = list(v) if owner is not None else list(cls.fields)
            return self._patterns([(self.getattr(subj, n), q) for n, q in list(zip(names, p.patterns)) + list(zip(p.kwd_attrs, p.kwd_patterns))])
        return None

    def _patterns(self, pairs):
        cs = []
        for v, q in pairs:
            c = self._pattern(v, q)
            if c is None or c is False:
                return c
            cs.append(c)
        return tm.and_(True, *cs)

    # ------------------------------------------------------------------ names
    def store_name(self, name, v):
        fr = self.stack[-1]
        d = fr.locals
        if name in fr.globals_decl:
            d = fr.module.ns
        elif name in fr.nonlocals:
            p = fr.parent
            while p is not None:
                if name in p.locals:
                    d = p.locals
                    break
                p = p.parent
        self.log_slot(d, name)
        d[name] = v

    def load_name(self, name):
        fr = self.stack[-1]
        f = fr
        if name in f.locals and name not in f.globals_decl:
            return self.res(f.locals[name])
        f = fr.parent
        while f is not None:
            if name in f.locals and "__classbody__" not in f.locals:
                return self.res(f.locals[name])
            f = f.parent
        e = getattr(fr, "enclosing", None)
        while e is not None:
            if e.func is not None and name in e.locals:
                return self.res(e.locals[name])
            e = e.parent
        if name in fr.module.ns:
            return self.res(fr.module.ns[name])
        if name in self.builtins:
            return self.builtins[name]
        raise AbsRaise("NameError: " + name, self.loc())

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.res(v)
            items = self.iterate(v)
            if items is None:
                if isinstance(v, (U, T)):
                    items = []
                    for i, e in enumerate(t.elts):
                        items.append(self.getitem(v, i))
                else:
                    self.degrade("unpack")
                    items = [self.unknown("unpack") for _ in t.elts]
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x)
                self.assign(t.elts[i].value, list(items[i : len(items) - after]))
                for e, x in zip(t.elts[i + 1 :], items[len(items) - after :]):
                    self.assign(e, x)
            else:
                if len(items) != len(t.elts):
                    raise AbsRaise("ValueError: cannot unpack %d values into %d" % (len(items), len(t.elts)), self.loc())
                for e, x in zip(t.elts, items):
                    self.assign(e, x)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value), self.eval_index(t.slice), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            self.degrade("assign target")

    # ------------------------------------------------------------------ expressions
    def eval(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.unknown(type(e).__name__, "expression " + type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        return Cplx.of(e.value) if isinstance(e.value, complex) else e.value

    def e_Name(self, e):
        return self.load_name(e.id)

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v

    def e_Tuple(self, e):
        return tuple(self._elts(e.elts))

    def e_List(self, e):
        return self._elts(e.elts)

    def e_Set(self, e):
        vals = self._elts(e.elts)
        try:
            return set(vals)
        except TypeError:
            return self.unknown("set", "unhashable set")

    def _elts(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                items = self.iterate(self.eval(x.value))
                if items is None:
                    self.degrade("star unknown")
                    items = [self.unknown("star")]
                out.extend(items)
            else:
                out.append(self.eval(x))
        return out

    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.res(self.eval(v))
                if isinstance(src, dict):
                    d.update(src)
                else:
                    self.degrade("dict ** unknown")
            else:
                kk = self.hashkey(self.eval(k))
                d[kk] = self.eval(v)
        return d

    def hashkey(self, k):
        k = unnp(self.res(k))
        try:
            hash(k)
        except TypeError:
            raise Unsupported("unhashable key")
        return k

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(str(v.value))
            else:
                x = self.res(self.eval(v.value))
                if isinstance(x, Obj):
                    x = self.text(x)
                if isinstance(x, (T, U, Obj, Phi)):
                    if isinstance(x, Phi):
                        return U("fstring", dom="unknown")
                    parts.append("{%s}" % (tm.show(x) if isinstance(x, T) else x))
                else:
                    try:
                        spec = self.eval(v.format_spec) if v.format_spec is not None else ""
                        if v.conversion == 114:
                            x = repr(x)
                        parts.append(format(x, spec) if spec else str(x))
                    except Exception:
                        parts.append(str(x))
        return "".join(parts)

    def e_FormattedValue(self, e):
        return str(self.text(self.eval(e.value)))

    def text(self, v):
        """str(v) of an object of the analysed program: its __str__ or __repr__, or an exception's message."""
        v = self.res(v)
        if isinstance(v, Obj):
            for n in ("__str__", "__repr__"):
                if isinstance(v.cls, Cls) and v.cls.lookup(n)[1] is not None:
                    return self.call(self.getattr(v, n), [], {})
            if "args" in v.attrs and isinstance(v.attrs["args"], tuple) and exc_name(v) not in ("object",):
                a = v.attrs["args"]
                return "" if not a else str(self.text(a[0])) if len(a) == 1 else str(a)
        return v

    def e_Lambda(self, e):
        f = self.make_func(e, "<lambda>")
        f.closure = self.stack[-1]
        return f

    def e_IfExp(self, e):
        c = self.truth(self.eval(e.test))
        k = self.known(c)
        if k is not None:
            return self.eval(e.body if k else e.orelse)
        return self.fork(c, lambda: self.eval(e.body), lambda: self.eval(e.orelse))

    def e_BoolOp(self, e):
        is_and = isinstance(e.op, ast.And)
        return self._boolop(is_and, e.values, 0)

    def _boolop(self, is_and, vals, i):
        v = self.eval(vals[i])
        if i == len(vals) - 1:
            return v
        c = self.truth(v)
        k = self.known(c)
        if k is not None:
            if k == is_and:
                return self._boolop(is_and, vals, i + 1)
            return v
        if is_and:
            return self.fork(c, lambda: self._boolop(is_and, vals, i + 1), lambda: False if is_scalar(v) else v)
        return self.fork(c, lambda: (True if _condlike(v) else v), lambda: self._boolop(is_and, vals, i + 1))

    def e_UnaryOp(self, e):
        v = self.res(self.eval(e.operand))
        op = type(e.op).__name__
        return self.unop(op, v)

    def unop(self, op, v):
        if isinstance(v, Phi):
            return self.lift(v, lambda x: self.unop(op, x))
        if op == "Not":
            return tm.not_(self.truth(v))
        if isinstance(v, Obj) and isinstance(v.cls, Cls):
            d = {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op]
            if v.cls.lookup(d)[1] is not None:
                return self.call(self.getattr(v, d), [], {})
        if isinstance(v, np.ndarray):
            if op == "Invert" and v.dtype == float:
                raise AbsRaise("TypeError: ufunc 'invert' not supported for floats", self.loc())
            return elementwise(lambda x: self.unop(op, x), v)
        if isinstance(v, Masked):
            return Masked(self.unop(op, v.full), v.mask)
        if op == "Invert":
            v = self.num(v)
            if isinstance(v, bool) or (isinstance(v, T) and tm._is_cond(v)):
                return tm.not_(v)
            if isinstance(v, int):
                return ~v
            if isinstance(v, float) or (isinstance(v, T) and v.dom in ("real", "pos", "angle", "small")):
                raise AbsRaise("TypeError: ufunc 'invert' not supported for floats", self.loc())
            return tm.fn("invert", v)
        v = self.num(v)
        if isinstance(v, Cplx):
            return v.op("Mult", -1.0) if op == "USub" else v
        if op == "USub":
            return tm.mul(-1, v) if isinstance(v, T) else -v
        return v

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        return self.binop(type(e.op).__name__, a, b)

    def num(self, v):
        """Coerce to a scalar (python number, bool or term)."""
        v = self.res(v)
        if isinstance(v, (bool, int, float, T)) or type(v).__name__ == "Fraction":
            return v
        if isinstance(v, np.generic):
            return v.item()
        if isinstance(v, U):
            return v.term
        if isinstance(v, np.ndarray) and v.size == 1:
            return self.num(v.reshape(-1)[0])
        if isinstance(v, Phi):
            return self.lift(v, self.num)
        if isinstance(v, Obj) and isinstance(v.cls, Cls):
            if getattr(v.cls, "is_enum", False) and "value" in v.attrs:
                return self.num(v.attrs["value"])
            for d in ("__float__", "__index__", "__int__"):
                f, _ = v.cls.lookup(d)
                if f is not None:
                    return self.num(self.call(self.getattr(v, d), [], {}))
        if v is None or isinstance(v, (str, list, dict, tuple)):
            raise AbsRaise("TypeError: number expected, got %s" % type(v).__name__, self.loc())
        if isinstance(v, (complex, Cplx)):
            return Cplx.of(v)
        raise Unsupported("number from %r" % (v,))

    def binop(self, op, a, b):
        a, b = self.res(a), self.res(b)
        if isinstance(a, Phi):
            return self.lift(a, lambda x: self.binop(op, x, b))
        if isinstance(b, Phi):
            return self.lift(b, lambda x: self.binop(op, a, x))
        for x, y, swap in ((a, b, False), (b, a, True)):
            if isinstance(x, Masked):
                y = y.full if isinstance(y, Masked) and y.same(x.mask) else y
                if is_scalar(y) or isinstance(y, np.ndarray) and y.shape == x.full.shape:
                    return Masked(self.binop(op, *((y, x.full) if swap else (x.full, y))), x.mask)
                return self.unknown("masked", "operator on masked elements")
        for x, y, d in ((a, b, DUNDER.get(op)), (b, a, "r" + DUNDER.get(op, ""))):
            if isinstance(x, Obj) and isinstance(x.cls, Cls):
                f, _ = x.cls.lookup("__%s__" % d)
                if f is not None:
                    return self.call(self.getattr(x, "__%s__" % d), [y], {})
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            if op == "MatMult":
                return self.matmul(a, b)
            if isinstance(a, (list, tuple)):
                a = arr(a)
            if isinstance(b, (list, tuple)):
                b = arr(b)
            try:
                r = elementwise(lambda x, y: ieee_div(x) if op == "Div" and is_zero(y) and is_real(x) else self.scalar_op(op, x, y), a, b)
            except ValueError as ex:
                raise AbsRaise("ValueError: " + str(ex), self.loc())
            if r.shape == ():
                return r[()]
            return r
        if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
            if isinstance(a, U) or isinstance(b, U) or isinstance(a, T) or isinstance(b, T):
                return U("str", dom="unknown")
            try:
                return {"Add": lambda: a + b, "Mult": lambda: a * b, "Mod": lambda: a % b}[op]()
            except TypeError as ex:
                raise AbsRaise("TypeError: " + str(ex), self.loc())
            except KeyError:
                raise Unsupported("string operator")
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            if op == "Add" and type(a) is type(b):
                return a + b
            if op == "Add" and (isinstance(a, U) or isinstance(b, U)):
                return self.unknown("listadd", "list + unknown")
            if op == "Mult":
                l, n = (a, b) if isinstance(a, (list, tuple)) else (b, a)
                n = unnp(self.num(n))
                if isinstance(n, int):
                    return l * n
                return self.unknown("listmul", "list * unknown")
            if op == "Mod":
                return U("str", dom="unknown")
            raise AbsRaise("TypeError: unsupported operand %s" % op, self.loc())
        if isinstance(a, set) or isinstance(b, set):
            try:
                return {"Sub": lambda: a - b, "BitOr": lambda: a | b, "BitAnd": lambda: a & b, "BitXor": lambda: a ^ b}[op]()
            except Exception:
                return self.unknown("setop", "set operator")
        if isinstance(a, dict) and isinstance(b, dict) and op == "BitOr":
            return {**a, **b}
        return self.scalar_op(op, a, b)

    def scalar_op(self, op, a, b):
        if isinstance(a, Phi) or isinstance(b, Phi):
            return self.binop(op, a, b)
        if isinstance(a, str) and isinstance(b, str) and op == "Add":
            return a + b
        a, b = self.num(a), self.num(b)
        if isinstance(a, Cplx) or isinstance(b, Cplx):
            return Cplx.of(a).op(op, b)
        try:
            if op == "Add":
                return a + b
            if op == "Sub":
                return a - b
            if op == "Mult":
                return tm.mul(a, b) if isinstance(a, T) or isinstance(b, T) else a * b
            if op == "Div":
                if isinstance(a, T) or isinstance(b, T):
                    return tm.div(a, b)
                return a / b
            if op == "Pow":
                return tm.power(a, b) if isinstance(a, T) or isinstance(b, T) else a**b
            if op == "Mod":
                return tm.fn("mod", a, b) if isinstance(a, T) or isinstance(b, T) else a % b
            if op == "FloorDiv":
                return tm.fn("floordiv", a, b) if isinstance(a, T) or isinstance(b, T) else a // b
            if op in ("BitAnd", "BitOr", "BitXor"):
                if isinstance(a, (bool, T)) and isinstance(b, (bool, T)):
                    ca, cb = tm.cond(a), tm.cond(b)
                    if op == "BitAnd":
                        return tm.and_(ca, cb)
                    if op == "BitOr":
                        return tm.or_(ca, cb)
                    return tm.ite(ca, tm.not_(cb), cb)
                if isinstance(a, int) and isinstance(b, int):
                    return {"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b}[op]
                return tm.fn(op, a, b)
            if op in ("LShift", "RShift"):
                if isinstance(a, int) and isinstance(b, int):
                    return a << b if op == "LShift" else a >> b
                return tm.fn(op, a, b)
        except ZeroDivisionError:
            if isinstance(a, (int, float)) and self.loop == 0:
                raise AbsRaise("ZeroDivisionError", self.loc())
            return tm.fn("div0", a)
        except (OverflowError, ValueError):
            return float("nan")
        raise Unsupported("operator " + op)

    def matmul(self, a, b):
        a, b = arr(a), arr(b)
        if a.ndim == 0 or b.ndim == 0:
            raise AbsRaise("ValueError: matmul scalar", self.loc())

        def dot1(x, y):
            s = 0
            for p, q in zip(x, y):
                s = self.scalar_op("Add", s, self.scalar_op("Mult", p, q))
            return s

        if a.shape[-1] != (b.shape[0] if b.ndim == 1 else b.shape[-2]):
            raise AbsRaise("ValueError: matmul shapes %s %s" % (a.shape, b.shape), self.loc())
        if a.ndim == 1 and b.ndim == 1:
            return dot1(a, b)
        if a.ndim == 2 and b.ndim == 1:
            return arr([dot1(r, b) for r in a])
        if a.ndim == 1 and b.ndim == 2:
            return arr([dot1(a, b[:, j]) for j in range(b.shape[1])])
        if a.ndim == 2 and b.ndim == 2:
            out = np.empty((a.shape[0], b.shape[1]), dtype=object)
            for i in range(a.shape[0]):
                for j in range(b.shape[1]):
                    out[i, j] = dot1(a[i], b[:, j])
            return out
        if a.ndim > 2:
            return arr([self.matmul(x, b if b.ndim <= 2 else b[i]) for i, x in enumerate(a)])
        return arr([self.matmul(a, y) for y in b])

    def e_Compare(self, e):
        left = self.eval(e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r)
            c = self.compare(type(op).__name__, left, right)
            if res is None:
                res = c
            else:
                res = tm.and_(self.truth(res), self.truth(c))
            left = right
        return res

    def compare(self, op, a, b):
        a, b = self.res(a), self.res(b)
        if isinstance(a, Phi):
            return self.lift(a, lambda x: self.compare(op, x, b))
        if isinstance(b, Phi):
            return self.lift(b, lambda x: self.compare(op, a, x))
        if op == "Is":
            return self.identical(a, b)
        if op == "IsNot":
            return tm.not_(self.identical(a, b))
        if op == "In":
            return self.contains(b, a)
        if op == "NotIn":
            return tm.not_(self.contains(b, a))
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            if isinstance(a, (list, tuple)):
                a = arr(a)
            if isinstance(b, (list, tuple)):
                b = arr(b)
            if a is None or b is None:
                return op == "NotEq"
            r = elementwise(lambda x, y: self.compare(op, x, y), a, b)
            return r[()] if r.shape == () else r
        if op == "Eq":
            return self.equal(a, b)
        if op == "NotEq":
            return tm.not_(self.equal(a, b))
        if isinstance(a, str) and isinstance(b, str) or (isinstance(a, (tuple, list)) and isinstance(b, (tuple, list))):
            try:
                return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
            except TypeError:
                return self.unknown("cmp", "sequence comparison").term
        for x, y, d in ((a, b, ORDER.get(op)), (b, a, ORDER.get(MIRROR.get(op)))):
            if d is not None and isinstance(x, Obj) and isinstance(x.cls, Cls) and x.cls.lookup(d)[1] is not None:
                return self.call(self.getattr(x, d), [y], {})
        if isinstance(a, set) and isinstance(b, set):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        if isinstance(a, (complex, Cplx)) or isinstance(b, (complex, Cplx)):
            raise AbsRaise("TypeError: complex numbers have no order", self.loc())
        a, b = self.num(a), self.num(b)
        if op == "Lt":
            return tm.lt(a, b)
        if op == "LtE":
            return tm.le(a, b)
        if op == "Gt":
            return tm.lt(b, a)
        if op == "GtE":
            return tm.le(b, a)
        raise Unsupported("compare " + op)

    def identical(self, a, b):
        if a is b:
            return True
        if a is None or b is None:
            o = b if a is None else a
            if isinstance(o, U):
                return tm.sym("%s is None" % o.name, "bool")
            return False
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, Bound) and isinstance(b, Bound):
            return a.func is b.func and a.self_ is b.self_
        if isinstance(a, (Ext, BT)) and isinstance(b, (Ext, BT)) and type(a) is not type(b):
            x, y = (a, b) if isinstance(a, BT) else (b, a)
            return y.name == {"float": "numpy.float64", "int": "numpy.int64", "bool": "numpy.bool"}.get(x.name)
        if isinstance(a, Ext) and isinstance(b, Ext):
            return same_ext(a, b)
        if isinstance(a, T) and isinstance(b, bool):
            return tm.eq(a, b) if not tm._is_cond(a) else (a if b else tm.not_(a))
        if isinstance(a, bool) and isinstance(b, T):
            return self.identical(b, a)
        if isinstance(a, U) or isinstance(b, U):
            return tm.sym("%r is %r" % (a, b), "bool")
        if isinstance(a, (int, str)) and isinstance(b, (int, str)):
            return type(a) is type(b) and a == b
        if isinstance(a, BT) and isinstance(b, BT):
            return a.name == b.name
        return False

    def equal(self, a, b):
        if a is b:
            return True
        if isinstance(a, Cplx) or isinstance(b, Cplx):
            if not all(isinstance(x, (Cplx, complex)) or is_scalar(x) for x in (a, b)):
                return False
            a, b = Cplx.of(a), Cplx.of(b)
            return tm.and_(tm.eq(a.re, b.re), tm.eq(a.im, b.im))
        a, b = unnp(a), unnp(b)
        if isinstance(a, Phi) or isinstance(b, Phi):
            return self.compare("Eq", a, b)
        if isinstance(a, (T, bool, int, float)) and isinstance(b, (T, bool, int, float)):
            if isinstance(a, T) and isinstance(b, (bool, T)) and tm._is_cond(a) and (tm._is_cond(b)):
                b = tm.cond(b)
                return a if b is True else tm.not_(a) if b is False else tm.ite(a, b, tm.not_(b))
            return tm.eq(a, b)
        if isinstance(a, U) or isinstance(b, U):
            x, y = (a, b) if isinstance(a, U) else (b, a)
            if is_scalar(y):
                return tm.eq(x.term, y)
            if isinstance(y, U):
                return tm.eq(x.term, y.term)
            return tm.sym("%r==%r" % (x, y), "bool")
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if type(a) is not type(b) or len(a) != len(b):
                return False
            return tm.and_(True, *[self.truth(self.equal(x, y)) for x, y in zip(a, b)])
        if isinstance(a, dict) and isinstance(b, dict):
            if set(a) != set(b):
                return False
            return tm.and_(True, *[self.truth(self.equal(a[k], b[k])) for k in a])
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return bool(a == b)
        if isinstance(a, (str, type(None), set, complex, range, frozenset)) or isinstance(b, (str, type(None), set, complex, range, frozenset)):
            try:
                return bool(a == b) if type(a) is type(b) else False
            except Exception:
                return False
        if isinstance(a, Obj) and isinstance(a.cls, Cls):
            f, _ = a.cls.lookup("__eq__")
            if f is not None:
                return self.call(self.getattr(a, "__eq__"), [b], {})
        if isinstance(a, Ext) and isinstance(b, Ext):
            return same_ext(a, b)
        if isinstance(a, Obj) and isinstance(b, Obj) and a.extname and b.extname:
            return tm.sym("%r==%r" % (a, b), "bool") if same_ext(a.cls, b.cls) else False
        if isinstance(a, BT) and isinstance(b, BT):
            return a.name == b.name
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return self.compare("Eq", a, b)
        if isinstance(a, Bound) and isinstance(b, Bound):
            return a.func is b.func and a.self_ is b.self_
        return False

    def contains(self, c, x):
        c = self.res(c)
        if isinstance(c, Phi):
            return self.lift(c, lambda y: self.contains(y, x))
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            return tm.sym("%r in %r" % (x, c), "bool")
        if isinstance(c, dict):
            c = list(c.keys())
        if isinstance(c, np.ndarray):
            c = list(c.reshape(-1))
        if isinstance(c, (list, tuple, set, frozenset, range)) or type(c).__name__ in ("dict_keys", "dict_values"):
            cs = []
            for y in list(c):
                r = self.truth(self.equal(x, y))
                if r is True:
                    return True
                if r is not False:
                    cs.append(r)
            return tm.or_(False, *cs) if cs else False
        if isinstance(c, Obj):
            if isinstance(c.cls, Cls):
                f, _ = c.cls.lookup("__contains__")
                if f is not None:
                    return self.call(self.getattr(c, "__contains__"), [x], {})
            if c.extname:
                return self.call(self.getattr(c, "contains"), [x], {})
        items = self.iterate(c)
        if items is not None:
            return self.contains(items, x)
        return tm.sym("%r in %r" % (x, c), "bool")

    def truth(self, v):
        v = self.res(v)
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str, list, tuple, dict, set, frozenset, range, bytes)):
            return bool(v)
        if isinstance(v, (complex, Cplx)):
            v = Cplx.of(v)
            return tm.or_(tm.not_(tm.eq(v.re, 0)), tm.not_(tm.eq(v.im, 0)))
        if isinstance(v, np.generic):
            return bool(v)
        if isinstance(v, T):
            return tm.cond(v)
        if isinstance(v, np.ndarray):
            if v.size == 1:
                return self.truth(v.reshape(-1)[0])
            if v.size == 0:
                raise AbsRaise("ValueError: truth value of an empty array is ambiguous", self.loc())
            raise AbsRaise("ValueError: truth value of an array is ambiguous", self.loc())
        if isinstance(v, U):
            if v.dom == "bool":
                return v.term
            return tm.sym("bool(%s)" % v.name, "unknown" if v.dom == "unknown" else "bool")
        if isinstance(v, Phi):
            return self.lift(v, self.truth)
        if isinstance(v, Obj) and isinstance(v.cls, Cls):
            for d in ("__bool__", "__len__"):
                f, _ = v.cls.lookup(d)
                if f is not None:
                    return self.truth(self.call(self.getattr(v, d), [], {}))
            return True
        if isinstance(v, Deque):
            return bool(v.items)
        return True

    def make_enum(self, cls, items):
        cls.is_enum = True
        done = []
        for i, (k, v) in enumerate(items):
            if isinstance(v, Obj) and v.extname == "enum.auto":
                v = i + 1
            for m in done:
                if self.equal(m.attrs["value"], v) is True:
                    break
            else:
                m = Obj(cls)
                m.attrs.update(name=k, value=v, _value_=v, _name_=k)
                done.append(m)
            cls.ns[k] = m

    def iterate(self, v):
        """Python list of the elements, or None when unknown."""
        v = self.res(v)
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, dict):
            return list(v.keys())
        if isinstance(v, (set, frozenset)):
            return sorted(v, key=repr)
        if isinstance(v, (str, range)):
            return list(v)
        if isinstance(v, np.ndarray):
            if v.ndim == 0:
                raise AbsRaise("TypeError: iteration over a 0-d array", self.loc())
            return [v[i] for i in range(v.shape[0])]
        if isinstance(v, IterBox):
            return v.drain()
        if isinstance(v, Deque):
            return list(v.items)
        if isinstance(v, Phi):
            a, b = self.iterate(v.a), self.iterate(v.b)
            if a is not None and b is not None and len(a) == len(b):
                return [self.merge(v.c, x, y) for x, y in zip(a, b)]
            return None
        if isinstance(v, Cls):
            ms = []
            for x in v.ns.values():
                if isinstance(x, Obj) and x.cls is v and x not in ms:
                    ms.append(x)
            if ms:
                return ms
        if isinstance(v, Obj) and isinstance(v.cls, Cls):
            f, _ = v.cls.lookup("__iter__")
            if f is not None:
                r = self.res(self.call(self.getattr(v, "__iter__"), [], {}))
                if isinstance(r, Obj) and isinstance(r.cls, Cls) and r.cls.lookup("__next__")[1] is not None:
                    return self._rounds(r)
                return self.iterate(r) if r is not v else None
            f, _ = v.cls.lookup("__getitem__")
            g, _ = v.cls.lookup("__len__")
            if f is not None and g is not None:
                n = self.call(self.getattr(v, "__len__"), [], {})
                if isinstance(n, int):
                    return [self.getitem(v, i) for i in range(n)]
        if isinstance(v, Obj) and v.extname and v.extname.endswith("spaces.Tuple"):
            return list(v.attrs["spaces"])
        if type(v).__name__ in ("dict_keys", "dict_values", "dict_items"):
            return list(v)
        if v is None or isinstance(v, (bool, int, float)):
            raise AbsRaise("TypeError: %s is not iterable" % type(v).__name__, self.loc())
        return None

    def _rounds(self, o):
        """Everything an iterator object yields until it raises StopIteration."""
        out = []
        while len(out) < 500:
            try:
                out.append(self.call(self.getattr(o, "__next__"), [], {}))
            except AbsRaise as e:
                if exc_name(e.exc) == "StopIteration":
                    return out
                raise
        return None

    def e_Attribute(self, e):
        return self.getattr(self.eval(e.value), e.attr)

    def e_Subscript(self, e):
        o = self.eval(e.value)
        if isinstance(o, Ext) and o.name in ("numpy.mgrid", "numpy.ogrid"):
            return self.ext.mgrid(self.eval_index(e.slice))
        if isinstance(o, Ext) and o.name in ("numpy.r_", "numpy.c_", "numpy.s_", "numpy.index_exp"):
            ix = self.eval_index(e.slice)
            if o.name == "numpy.s_":
                return ix
            parts = list(ix) if isinstance(ix, tuple) else [ix]
            if o.name == "numpy.index_exp":
                return tuple(parts)
            if any(isinstance(p, (slice, str)) for p in parts):
                return self.unknown("r_", "numpy.r_ with a slice")
            return self.call(Ext("numpy.hstack" if o.name == "numpy.r_" else "numpy.column_stack"), [parts], {})
        if isinstance(o, (Ext, BT)) or (isinstance(o, Native)):
            return o  # typing generics
        return self.getitem(o, self.eval_index(e.slice))

    def eval_index(self, s):
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x) for x in s.elts)
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self._ix(self.eval(x))
            return slice(f(s.lower), f(s.upper), f(s.step))
        return self._ix(self.eval(s))

    def e_Slice(self, e):
        return self.eval_index(e)

    def _ix(self, v):
        v = unnp(self.res(v))
        if isinstance(v, np.ndarray) and v.ndim == 0:
            v = v[()]
        if isinstance(v, float) and not isinstance(v, bool):
            return v
        return v

    def getitem(self, o, ix):
        o = self.res(o)
        ix = self.res(ix)
        if isinstance(o, Phi):
            return self.lift(o, lambda x: self.getitem(x, ix))
        if isinstance(ix, Phi):
            return self.lift(ix, lambda x: self.getitem(o, x))
        ix = self.plain(ix)
        if isinstance(ix, slice) and isinstance(o, (str, list, tuple, range, np.ndarray)):
            for pos, x in enumerate((ix.start, ix.stop, ix.step)):
                x = self.res(x)
                if isinstance(x, T) and x.op == "ite":
                    bounds = [ix.start, ix.stop, ix.step]
                    r = self.split_int(x, lambda v: self.getitem(o, slice(*(bounds[:pos] + [v] + bounds[pos + 1:]))))
                    if r is not None:
                        return r
        if isinstance(o, Cls) and getattr(o, "is_enum", False) and isinstance(ix, str):
            if ix in o.ns and isinstance(o.ns[ix], Obj):
                return o.ns[ix]
            raise AbsRaise("KeyError: %r" % ix, self.loc())
        if isinstance(o, (str, list, tuple, range)):
            if isinstance(ix, U):
                ix = ix.term
            if isinstance(ix, bool):
                ix = int(ix)
            if isinstance(ix, T):
                return self.symindex(list(o), ix)
            if isinstance(ix, slice):
                if any(isinstance(x, (T, U)) for x in (ix.start, ix.stop, ix.step)):
                    return self.unknown("slice", "symbolic slice")
                return o[ix]
            if isinstance(ix, float) or isinstance(ix, (str, tuple, list, np.ndarray)):
                raise AbsRaise("TypeError: list indices must be integers", self.loc())
            try:
                return self.res(o[ix])
            except IndexError:
                raise AbsRaise("IndexError: list index out of range", self.loc())
            except TypeError as ex:
                raise AbsRaise("TypeError: " + str(ex), self.loc())
        if isinstance(o, dict):
            if isinstance(ix, (T, U)):
                keys = list(o)
                if isinstance(ix, T) and keys and all(isinstance(k, (int, float, bool)) for k in keys):
                    v = o[keys[-1]]
                    for k in reversed(keys[:-1]):
                        v = self.merge(tm.eq(ix, k), o[k], v)
                    return v
                if ix in o:
                    return o[ix]
                return self.unknown("dictitem", "unknown dict key")
            k = self.hashkey(ix)
            if k in o:
                return self.res(o[k])
            if isinstance(k, tuple) and any(isinstance(x, (T, U, Phi)) for x in k):
                return self._tuple_key(o, k)
            d = getattr(o, "factory", None)
            if d is not None:
                v = self.call(d, [], {})
                if not isinstance(d, Native):
                    self.log_dict(o, k)
                    o[k] = v
                return v
            raise AbsRaise("KeyError: %r" % (k,), self.loc())
        if isinstance(o, np.ndarray):
            return self.arrayget(o, ix)
        if isinstance(o, U):
            key = "[%s]" % (tm.show(ix) if isinstance(ix, T) else ixname(ix))
            if key not in o.attrs:
                o.attrs[key] = U("%s%s" % (o.name, key) + ("" if not o.version else "@%d" % o.version), dom=o.dom)
            return o.attrs[key]
        if isinstance(o, T):
            if isinstance(ix, (int, T)):
                return tm.fn("item", o, ix)
            return tm.fn("item", o, ixname(ix))
        if isinstance(o, Deque):
            if isinstance(ix, int):
                return o.items[ix]
            return self.unknown("deque", "deque index")
        if isinstance(o, Obj):
            if isinstance(o.cls, Cls):
                f, _ = o.cls.lookup("__getitem__")
                if f is not None:
                    return self.call(self.getattr(o, "__getitem__"), [ix], {})
            if o.extname and o.extname.endswith("spaces.Tuple"):
                return o.attrs["spaces"][ix]
        if isinstance(o, Mock):
            if "__getitem__" in o.methods:
                return self.call(o.methods["__getitem__"], [ix], {})
            return self._mock_default(o, "[%s]" % ixname(ix))
        if isinstance(o, Cls):
            if isinstance(ix, str) and isinstance(o.ns.get(ix), Obj):
                return o.ns[ix]
            return o
        if o is None:
            raise AbsRaise("TypeError: 'NoneType' object is not subscriptable", self.loc())
        if isinstance(o, (bool, int, float)):
            raise AbsRaise("TypeError: number is not subscriptable", self.loc())
        return self.unknown("item", "subscript of %r" % (o,))

    def _tuple_key(self, o, k):
        """Item of a dictionary at a tuple with undecided components: one of the items whose key agrees."""
        hits = []
        for key in o:
            if isinstance(key, tuple) and len(key) == len(k):
                c = tm.and_(True, *[self.truth(self.equal(x, y)) for x, y in zip(key, k)])
                if self.known(c) is not False:
                    hits.append((c, key))
        if not hits:
            raise AbsRaise("KeyError: %r" % (k,), self.loc())
        v = self.res(o[hits[-1][1]])
        for c, key in reversed(hits[:-1]):
            v = self.merge(c, o[key], v)
        return v

    def split_int(self, v, f, n=8):
        """f applied to each integer an undecided number can be (None if these are not known)."""
        v = self.res(v)
        if isinstance(v, T):
            if v.op == "ite" and n > 0:
                return self.fork(v.args[0], lambda: self.split_int(v.args[1], f, n - 1), lambda: self.split_int(v.args[2], f, n - 1))
            return None
        return f(v)

    def plain(self, ix):
        """Index without enumeration members."""
        if isinstance(ix, tuple):
            return tuple(self.plain(x) for x in ix)
        if isinstance(ix, Obj) and getattr(ix.cls, "is_enum", False) and any(isinstance(b, Ext) and b.name.endswith("IntEnum") for b in ix.cls.mro):
            return ix.attrs["value"]
        return ix

    def symindex(self, items, ix):
        if not items:
            raise AbsRaise("IndexError", self.loc())
        self.event("symindex", "index", [ix, len(items)])
        v = items[-1]
        for k in range(len(items) - 2, -1, -1):
            v = self.merge(tm.eq(ix, k), items[k], v)
        return v

    def lookup(self, a, ix):
        """Element of an array at symbolic positions; large tables stay opaque functions of their indices."""
        ix = tuple(x.term if isinstance(x, U) else x for x in ix)
        pos = [p for p, x in enumerate(ix) if isinstance(x, T)]
        if len(ix) > a.ndim or any(not isinstance(x, (T, int, np.integer, slice)) for x in ix):
            return self.unknown("arrayitem", "symbolic array index %r" % (ix,))
        size = 1
        for p in pos:
            size *= a.shape[p]
        if size <= 24:
            p = pos[0]
            return self.symindex([self.arrayget(a, ix[:p] + (k,) + ix[p + 1:]) for k in range(a.shape[p])], ix[p])
        for p in pos:
            self.event("symindex", "index", [ix[p], a.shape[p]])
        rest = a[tuple(0 if isinstance(x, T) else x for x in ix)]
        key = self.table_key(a)
        others = [repr(x) for x in ix if not isinstance(x, T)]

        def cell(n):
            return tm.fn("lookup", "|".join([key] + others + [str(n)]), *[ix[p] for p in pos])
        if isinstance(rest, np.ndarray):
            out = np.empty(rest.shape, dtype=object)
            for n, i in enumerate(np.ndindex(rest.shape)):
                out[i] = cell(n)
            return out
        return cell(0)

    def table_key(self, a):
        import hashlib
        return hashlib.sha1(("%s" % (a.shape,) + "|".join(repr(x) for x in a.reshape(-1)[:4000])).encode()).hexdigest()[:12]

    def _np_index(self, ix):
        if isinstance(ix, tuple):
            return tuple(self._np_index(x) for x in ix)
        if isinstance(ix, np.ndarray):
            if ix.dtype == object:
                l = [unnp(x) for x in ix.reshape(-1)]
                if any(isinstance(x, (T, U, Phi)) for x in l):
                    return None
                if l and all(isinstance(x, bool) for x in l):
                    return np.array(l, dtype=bool).reshape(ix.shape)
                if any(isinstance(x, float) for x in l):
                    raise AbsRaise("IndexError: arrays used as indices must be of integer type", self.loc())
                return np.array(l, dtype=int).reshape(ix.shape)
            return ix
        if isinstance(ix, list):
            l = [unnp(x) for x in ix]
            if any(isinstance(x, (T, U, Phi)) for x in l):
                return None
            if l and all(isinstance(x, bool) for x in l):
                return np.array(l, dtype=bool)
            if any(isinstance(x, list) for x in l):
                return [self._np_index(x) for x in l]
            return np.array(l, dtype=int)
        if isinstance(ix, (T, U)):
            return None
        if isinstance(ix, slice) and any(isinstance(x, (T, U)) for x in (ix.start, ix.stop, ix.step)):
            return None
        return ix

    def arrayget(self, a, ix):
        if isinstance(ix, tuple):
            ix = tuple(unnp(x.item() if isinstance(x, np.ndarray) and x.ndim == 0 else x) for x in ix)
            for k, x in enumerate(ix):
                x = self.res(x)
                if isinstance(x, Phi):
                    pick = lambda v: ix[:k] + (v,) + ix[k + 1:]
                    return self.fork(x.c, lambda: self.arrayget(a, pick(x.a)), lambda: self.arrayget(a, pick(x.b)))
        elif isinstance(ix, np.ndarray) and ix.ndim == 0:
            ix = unnp(ix.item())
        i2 = self._np_index(ix)
        if ix is None:
            return a[None]
        if i2 is None or (isinstance(i2, tuple) and any(x is None and y is not None for x, y in zip(i2, ix))):
            if isinstance(ix, (T, U)) and a.ndim >= 1:
                return self.lookup(a, (ix,))
            if isinstance(ix, tuple) and all(isinstance(x, (T, U, int, np.integer, slice)) for x in ix):
                return self.lookup(a, ix)
            if isinstance(ix, (np.ndarray, list)) and arr(ix).shape == a.shape and all(isinstance(x, bool) or isinstance(x, T) and tm._is_cond(x) for x in arr(ix).reshape(-1)):
                return Masked(a.copy(), arr(ix).copy())
            return self.unknown("arrayitem", "symbolic array index %r" % (ix,))
        try:
            r = a[i2]
        except (IndexError, TypeError, ValueError) as ex:
            raise AbsRaise("IndexError: %s" % ex, self.loc())
        if isinstance(r, np.ndarray):
            return r
        return self.res(unnp(r))

    def setitem(self, o, ix, v):
        o = self.res(o)
        if isinstance(o, Phi):
            self.fork(o.c, lambda: self.setitem(o.a, ix, v), lambda: self.setitem(o.b, ix, v))
            return
        ix = self.res(ix)
        if isinstance(ix, Phi):
            self.fork(ix.c, lambda: self.setitem(o, ix.a, v), lambda: self.setitem(o, ix.b, v))
            return
        ix = self.plain(ix)
        if isinstance(o, dict):
            k = self.hashkey(ix) if not isinstance(ix, U) else ix
            self.log_dict(o, k)
            o[k] = v
        elif isinstance(o, list):
            if isinstance(ix, slice) or isinstance(ix, int):
                if isinstance(ix, slice):
                    v = self.iterate(v)
                self.log_list(o)
                try:
                    o[ix] = v
                except IndexError:
                    raise AbsRaise("IndexError: list assignment index out of range", self.loc())
            elif isinstance(ix, (T, U)):
                t = ix.term if isinstance(ix, U) else ix
                self.log_list(o)
                for k in range(len(o)):
                    o[k] = self.merge(tm.eq(t, k), v, o[k])
            else:
                raise AbsRaise("TypeError: list index", self.loc())
        elif isinstance(o, np.ndarray):
            i2 = self._np_index(ix)
            if i2 is None or (isinstance(i2, tuple) and any(x is None and y is not None for x, y in zip(i2, ix))):
                if isinstance(ix, (np.ndarray, list)) and arr(ix).shape == o.shape:
                    c = arr(ix)
                    if isinstance(v, (list, tuple)):
                        v = arr(v)
                    if isinstance(v, Masked) and v.same(c):
                        v = v.full
                    self.log_arr(o)
                    o[...] = elementwise(lambda cc, x, y: self.merge(self.truth(cc), x, y), c, v, o)
                    return
                self.degrade("symbolic array store")
                return
            val = v
            if isinstance(val, (list, tuple)):
                val = arr(val)
            if isinstance(val, U):
                val = val.term
            self.log_arr(o)
            try:
                if isinstance(val, np.ndarray):
                    if not isinstance(o[i2], np.ndarray):
                        if val.size != 1:
                            raise AbsRaise("ValueError: setting an array element with a sequence", self.loc())
                        o[i2] = val.reshape(-1)[0]
                    else:
                        o[i2] = val
                else:
                    tgt = o[i2]
                    if isinstance(tgt, np.ndarray):
                        tmp = np.empty(tgt.shape, dtype=object)
                        tmp.reshape(-1)[:] = [val] * tgt.size
                        o[i2] = tmp
                    else:
                        o[i2] = val
            except (IndexError, ValueError) as ex:
                raise AbsRaise("%s: %s" % (type(ex).__name__, ex), self.loc())
        elif isinstance(o, U):
            o.attrs["[%s]" % ixname(ix)] = v
            self.event("setitem", o.name, [ix, v], obj=o)
        elif isinstance(o, Mock):
            self.event("setitem", o.name, [ix, v], obj=o)
        elif isinstance(o, Deque) and isinstance(ix, int):
            self.log_list(o.items)
            o.items[ix] = v
        elif isinstance(o, Obj) and isinstance(o.cls, Cls):
            f, _ = o.cls.lookup("__setitem__")
            if f is not None:
                self.call(self.getattr(o, "__setitem__"), [ix, v], {})
        else:
            self.degrade("setitem on %r" % (o,))

    # ------------------------------------------------------------------ attributes
    def getattr(self, o, name):
        o = self.res(o)
        if isinstance(o, Obj):
            return self.res(self._objattr(o, name))
        if isinstance(o, Module):
            if name in o.ns:
                return self.res(o.ns[name])
            sub = o.name + "." + name
            if sub in self.modules:
                return self.modules[sub]
            if self.module_path(sub)[0] and o.state == "loading":
                return self.load(sub)
            if name == "__dict__":
                return o.ns
            raise AbsRaise("AttributeError: module %s has no attribute %s" % (o.name, name), self.loc())
        if isinstance(o, Cls):
            v, owner = o.lookup(name)
            if owner is not None:
                if isinstance(v, StaticM):
                    return v.f
                if isinstance(v, ClassM):
                    return Bound(v.f, o)
                return self.res(v)
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "__module__":
                return o.module.name
            if name == "__mro__":
                return tuple(o.mro)
            if name == "__bases__":
                return tuple(o.bases)
            if name == "__dict__":
                return o.ns
            if name == "__init__":
                return Native("object.__init__", lambda it, a, k: None)
            for b in o.mro:
                if isinstance(b, Ext):
                    return self.ext.base_attr(b, name, o)
            raise AbsRaise("AttributeError: type object %s has no attribute %s" % (o.name, name), self.loc())
        if isinstance(o, SuperObj):
            return self._superattr(o, name)
        if isinstance(o, Ext):
            return self.ext.getattr(o, name)
        if isinstance(o, np.ndarray):
            return self.ext.array_attr(o, name)
        if isinstance(o, U):
            if name in ("shape", "dtype"):
                pass
            if o.cls is not None and name not in o.attrs:
                v, owner = o.cls.lookup(name)
                if isinstance(v, Func):
                    return Bound(v, o)
            if name not in o.attrs:
                o.attrs[name] = U("%s.%s" % (o.name, name) + ("" if not o.version else "@%d" % o.version), dom=o.dom)
            return o.attrs[name]
        if isinstance(o, Mock):
            if name in o.methods:
                return Bound(o.methods[name], o) if False else MockMethod(o, name)
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, MockProp):
                    return v.fn(self)
                return v
            return self._mock_default(o, name)
        if isinstance(o, Phi):
            return self.lift(o, lambda x: self.getattr(x, name))
        if isinstance(o, (complex, Cplx)):
            o = Cplx.of(o)
            if name in ("real", "imag"):
                return o.re if name == "real" else o.im
            if name in ("conjugate", "conj"):
                return Native(name, lambda it, a, k: o.conj())
            raise AbsRaise("AttributeError: complex number has no attribute %r" % name, self.loc())
        if isinstance(o, T) or isinstance(o, (bool, int, float)) or is_scalar(o):
            return self.ext.scalar_attr(o, name)
        if isinstance(o, Func):
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "__doc__":
                return U("doc", dom="unknown")
            if name == "__get__":
                return Native("get", lambda it, a, k: Bound(o, a[0]))
            if name == "__code__":
                return U("code", dom="unknown")
            if name in o.attrs:
                return o.attrs[name]
            raise AbsRaise("AttributeError: function has no attribute " + name, self.loc())
        if isinstance(o, Bound):
            if name == "__self__":
                return o.self_
            if name == "__func__":
                return o.func
            return self.getattr(o.func, name)
        if isinstance(o, BT):
            return self.ext.btype_attr(o, name)
        if isinstance(o, Prop):
            if name == "fget":
                return o.fget
            if name == "fset":
                return o.fset
            if name in ("setter", "getter"):
                return Native("prop." + name, lambda it, a, k: Prop(o.fget, a[0]) if name == "setter" else Prop(a[0], o.fset))
        if isinstance(o, (str, list, tuple, dict, set, frozenset, range, Deque, IterBox)):
            return self.ext.container_attr(o, name)
        if o is None:
            raise AbsRaise("AttributeError: 'NoneType' object has no attribute %r" % name, self.loc())
        if isinstance(o, Native):
            if name in ("__name__", "__qualname__"):
                return o.name
            if name in getattr(o, "attrs", {}):
                return o.attrs[name]
            return U(o.name + "." + name, dom="unknown")
        if isinstance(o, MockMethod):
            return U(o.mock.name + "." + o.name + "." + name, dom="unknown")
        return self.unknown("attr." + name, "attribute %s of %r" % (name, o))

    def _mock_default(self, o, name):
        if callable(o.default):
            return o.default(self, o, name)
        if o.default == "raise":
            raise AbsRaise("AttributeError: %s.%s" % (o.name, name), self.loc())
        if name not in o.attrs:
            o.attrs[name] = U("%s.%s" % (o.name, name))
        return o.attrs[name]

    def _objattr(self, o, name):
        cls = o.cls
        if isinstance(cls, Ext):
            return self.ext.obj_attr(o, name)
        v, owner = cls.lookup(name)
        if isinstance(v, Cached):
            if name not in o.attrs:
                self.setattr_raw(o, name, self.call_func(v.fget, [o], {}, self_=o))
            return o.attrs[name]
        if isinstance(v, Prop):
            return self.call_func(v.fget, [o], {}, self_=o)
        if isinstance(v, Obj) and isinstance(v.cls, Cls) and v.cls.lookup("__get__")[1] is not None and (name not in o.attrs or v.cls.lookup("__set__")[1] is not None):
            return self.call(self.getattr(v, "__get__"), [o, cls], {})
        if name in o.attrs:
            return o.attrs[name]
        if owner is not None:
            return self._bind(v, o)
        if name == "__class__":
            return cls
        if name == "__dict__":
            return o.attrs
        if name == "__init__":
            return Native("object.__init__", lambda it, a, k: None)
        for b in cls.mro:
            if isinstance(b, Ext):
                r = self.ext.base_attr(b, name, o)
                if r is not UNDEF:
                    return r
        g, _ = cls.lookup("__getattr__")
        if g is not None:
            return self.call_func(g, [o, name], {}, self_=o)
        if name == "__str__" or name == "__repr__":
            return Native(name, lambda it, a, k: "<%s object>" % cls.name)
        if name == "__eq__":
            return Native(name, lambda it, a, k: a[0] is o)
        if name == "__hash__":
            return Native(name, lambda it, a, k: o.n)
        raise AbsRaise("AttributeError: '%s' object has no attribute '%s'" % (cls.name, name), self.loc())

    def _bind(self, v, o):
        if isinstance(v, (Func, Native)):
            if isinstance(v, Native) and getattr(v, "static", False):
                return v
            return Bound(v, o)
        if isinstance(v, StaticM):
            return v.f
        if isinstance(v, ClassM):
            return Bound(v.f, o.cls)
        return v

    def _superattr(self, s, name):
        o = s.self_
        cls = o if isinstance(o, Cls) else o.cls
        v, owner = cls.lookup(name, after=s.cls)
        if owner is None:
            after = cls.mro[cls.mro.index(s.cls) + 1 :]
            for b in after:
                if isinstance(b, Ext):
                    r = self.ext.base_attr(b, name, o)
                    if r is not UNDEF:
                        return r
            if name == "__init__" or name == "__init_subclass__":
                return Native("object.__init__", lambda it, a, k: None)
            if name == "__setattr__":
                return Native("setattr", lambda it, a, k: self.setattr_raw(o, a[0], a[1]))
            if name in ("__new__",):
                return Native("object.__new__", lambda it, a, k: Obj(a[0]))
            if name in ("__str__", "__repr__"):
                return Native(name, lambda it, a, k: "<object>")
            if name in ("__getattribute__",):
                return Native("getattr", lambda it, a, k: self.getattr(o, a[0]))
            raise AbsRaise("AttributeError: 'super' object has no attribute %r" % name, self.loc())
        if isinstance(v, Prop):
            return self.call_func(v.fget, [o], {}, self_=o)
        if isinstance(v, StaticM):
            return v.f
        if isinstance(v, ClassM):
            return Bound(v.f, cls)
        if isinstance(v, Func) and not isinstance(o, Cls):
            return Bound(v, o)
        if isinstance(v, Func) and isinstance(o, Cls):
            return Bound(v, o) if s.bindcls else v
        return v

    def setattr(self, o, name, v):
        o = self.res(o)
        if isinstance(o, Obj):
            if isinstance(o.cls, Cls):
                p, _ = o.cls.lookup(name)
                if isinstance(p, Obj) and isinstance(p.cls, Cls) and p.cls.lookup("__set__")[1] is not None:
                    self.call(self.getattr(p, "__set__"), [o, v], {})
                    return
                if isinstance(p, Prop) and not isinstance(p, Cached):
                    if p.fset is None:
                        raise AbsRaise("AttributeError: can't set attribute " + name, self.loc())
                    self.call_func(p.fset, [o, v], {}, self_=o)
                    return
                sa, _ = o.cls.lookup("__setattr__")
                if sa is not None:
                    self.call_func(sa, [o, name, v], {}, self_=o)
                    return
            self.setattr_raw(o, name, v)
        elif isinstance(o, Cls):
            self.event("class_write", "%s.%s" % (o.name, name), [v], obj=o)
            self.log_slot(o.ns, name)
            o.ns[name] = v
        elif isinstance(o, Module):
            self.event("module_write", "%s.%s" % (o.name, name), [v])
            self.log_slot(o.ns, name)
            o.ns[name] = v
        elif isinstance(o, U):
            self.event("setattr", "%s.%s" % (o.name, name), [v], obj=o)
            self.log_slot(o.attrs, name)
            o.attrs[name] = v
        elif isinstance(o, Mock):
            self.event("setattr", "%s.%s" % (o.name, name), [v], obj=o)
            self.log_slot(o.attrs, name)
            o.attrs[name] = v
        elif isinstance(o, Phi):
            self.fork(o.c, lambda: self.setattr(o.a, name, v), lambda: self.setattr(o.b, name, v))
        elif isinstance(o, Func):
            self.event("setattr", "%s.%s" % (o.qualname, name), [v], obj=o)
            self.log_slot(o.attrs, name)
            o.attrs[name] = v
        elif isinstance(o, Ext):
            self.event("setattr", "%r.%s" % (o, name), [v])
        elif isinstance(o, np.ndarray) and name in ("shape", "dtype"):
            self.degrade("array." + name)
        elif o is None:
            raise AbsRaise("AttributeError: 'NoneType' object has no attribute %r" % name, self.loc())
        else:
            self.degrade("setattr on %r" % (o,))

    def setattr_raw(self, o, name, v):
        self.log_slot(o.attrs, name)
        o.attrs[name] = v
        if self.watch is not None:
            self.watch("write", o, name, v)

    # ------------------------------------------------------------------ calls
    def e_Call(self, e):
        fr = self.stack[-1]
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            fn_ = self.load_name("super") if "super" in self.builtins else None
            return self._super(e)
        f = self.eval(e.func)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.res(self.eval(a.value))
                items = self.iterate(v)
                if items is None:
                    self.degrade("*args unknown")
                    items = []
                args.extend(items)
            else:
                args.append(self.eval(a))
        for k in e.keywords:
            if k.arg is None:
                d = self.res(self.eval(k.value))
                if isinstance(d, dict):
                    for kk, vv in d.items():
                        kwargs[kk] = vv
                elif isinstance(d, U):
                    self.degrade("**kwargs unknown")
            else:
                kwargs[k.arg] = self.eval(k.value)
        fr.node = e
        self.call_sites.add((self.stack[-1].module.name if self.stack[-1].module else '?', e.lineno, e.col_offset))
        return self.call(f, args, kwargs)

    def _super(self, e):
        fr = self.stack[-1]
        if e.args:
            cls = self.eval(e.args[0])
            o = self.eval(e.args[1])
        else:
            f = fr
            while f is not None and (f.func is None or f.func.cls is None):
                f = f.parent
            if f is None:
                raise Unsupported("super outside method")
            cls = f.func.cls
            first = f.func.node.args.args[0].arg if f.func.node.args.args else None
            o = f.locals.get(first)
        s = SuperObj(cls, o)
        s.bindcls = isinstance(o, Cls)
        return s

    def call(self, f, args, kwargs):
        f = self.res(f)
        if isinstance(f, Bound):
            return self._call_bound(f, args, kwargs)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Native):
            return f.fn(self, args, kwargs)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Ext):
            return self.ext.call(f, args, kwargs)
        if isinstance(f, BT):
            return self.ext.btype_call(f, args, kwargs)
        if isinstance(f, MockMethod):
            e = self.event("call", "%s.%s" % (f.mock.name, f.name), [snap(a) for a in args], {k: snap(v) for k, v in kwargs.items()}, obj=f.mock)
            fn = f.mock.methods[f.name]
            r = fn(self, *args, **kwargs) if callable(fn) else self.call(fn, args, kwargs)
            e.result = r
            return r
        if isinstance(f, U):
            e = self.event("call", f.name, [snap(a) for a in args], {k: snap(v) for k, v in kwargs.items()}, obj=f)
            n = sum(1 for x in self.events if x.kind == "call" and x.name == f.name)
            r = U("%s()" % f.name + ("#%d" % n if n > 1 else ""), dom=f.dom)
            e.result = r
            return r
        if isinstance(f, Phi):
            return self.fork(f.c, lambda: self.call(f.a, args, kwargs), lambda: self.call(f.b, args, kwargs))
        if isinstance(f, Obj):
            if isinstance(f.cls, Cls):
                c, _ = f.cls.lookup("__call__")
                if c is not None:
                    return self.call(self._bind(c, f), args, kwargs)
            else:
                return self.ext.obj_call(f, args, kwargs)
        if isinstance(f, Mock):
            if "__call__" in f.methods:
                return self.call(MockMethod(f, "__call__"), args, kwargs)
            e = self.event("call", f.name, [snap(a) for a in args], {k: snap(v) for k, v in kwargs.items()}, obj=f)
            return U(f.name + "()")
        if isinstance(f, StaticM):
            return self.call(f.f, args, kwargs)
        if isinstance(f, ClassM):
            return self.call(f.f, args, kwargs)
        if f is None or isinstance(f, (int, float, str, list, dict, tuple, np.ndarray)):
            raise AbsRaise("TypeError: %s object is not callable" % type(f).__name__, self.loc())
        if isinstance(f, T):
            return self.unknown("callterm", "call of a term")
        if callable(f):
            return f(*args, **kwargs)
        return self.unknown("call", "call of %r" % (f,))

    def _call_bound(self, b, args, kwargs):
        f = b.func
        if isinstance(f, Func):
            return self.call_func(f, [b.self_] + list(args), kwargs, self_=b.self_)
        return self.call(f, [b.self_] + list(args), kwargs)

    def instantiate(self, cls, args, kwargs):
        if any(isinstance(b, Ext) and b.name.startswith("enum.") for b in cls.mro if not isinstance(b, Cls)) and args:
            for v in cls.ns.values():
                if isinstance(v, Obj) and v.cls is cls and (v is args[0] or self.equal(v.attrs["value"], args[0]) is True):
                    return v
            if isinstance(args[0], (str, int, float)):
                raise AbsRaise("ValueError: %r is not a valid %s" % (args[0], cls.name), self.loc())
            return self.unknown("enum", "enum lookup")
        if any(isinstance(b, Ext) and (b.name in EXC_NAMES or b.name.rsplit(".", 1)[-1] in EXCEPTIONS) for b in cls.mro if not isinstance(b, Cls)):
            o = Obj(cls)
            o.attrs["args"] = tuple(args)
            return o
        o = Obj(cls)
        self.event("new", cls.name, [], {}, obj=o)
        new, _ = cls.lookup("__new__")
        if new is not None:
            o2 = self.call_func(new.f if isinstance(new, StaticM) else new, [cls] + list(args), kwargs)
            if not (isinstance(o2, Obj) and isinstance(o2.cls, Cls) and cls in o2.cls.mro):
                return o2
            o = o2
        init, owner = cls.lookup("__init__")
        if init is None or (cls.dataclass and owner is not cls and cls.fields):
            if cls.dataclass:
                self._dataclass_init(o, cls, args, kwargs)
                return o
            if init is None:
                return o
        self.call_func(init, [o] + list(args), kwargs, self_=o)
        return o

    def _dataclass_init(self, o, cls, args, kwargs):
        fields = []
        for c in reversed(cls.mro):
            if isinstance(c, Cls):
                for f in getattr(c, "fields", []):
                    if f not in fields:
                        fields.append(f)
        vals = dict(zip(fields, args))
        vals.update(kwargs)
        for f in fields:
            if f in vals:
                o.attrs[f] = vals[f]
            else:
                v, owner = cls.lookup(f)
                if owner is None:
                    raise AbsRaise("TypeError: missing argument " + f, self.loc())
                if isinstance(v, U) and "field(" in v.name:
                    fac = getattr(v, "factory", None)
                    v = self.call(fac, [], {}) if fac is not None else getattr(v, "default", v)
                o.attrs[f] = v
        post, _ = cls.lookup("__post_init__")
        if post is not None:
            self.call(self._bind(post, o), [], {})

    def call_func(self, f, args, kwargs, self_=None):
        if isinstance(f, Native):
            return f.fn(self, args, kwargs)
        if isinstance(f, (StaticM, ClassM)):
            f = f.f
        if not isinstance(f, Func):
            return self.call(f, args, kwargs)
        ic = self.intercepts.get(f.qualname) or self.intercepts.get(f.name if f.cls is None else None)
        if ic is not None:
            return ic(self, f, args, kwargs)
        if len(self.stack) > self.max_depth:
            # the same call with the same objects over and over again never ends
            last = [fr for fr in self.stack[-40:] if fr.func is f and fr.self_ is self_ and _same_args(fr.call_args, args)]
            if len(last) >= 10:
                raise AbsRaise("RecursionError: maximum recursion depth exceeded", self.loc())
            raise Unsupported("call depth")
        self.functions[f.where] = self.functions.get(f.where, 0) + 1
        if self.log_enter:
            self.event("enter", f.qualname, [snap(a) for a in args], {k: snap(v) for k, v in kwargs.items()}, obj=args[0] if args else None)
        node = f.node
        locals_ = {}
        self.bind(f, node.args, args, kwargs, locals_)
        fr = Frame(f, f.module, locals_, f.cls, f.closure, self_)
        fr.node = node
        fr.call_args = args
        if not isinstance(node, ast.Lambda) and _is_generator(node):
            fr.yields = []
            fr.on_yield, self.next_yield = self.next_yield, None
        self.stack.append(fr)
        loop, self.loop = self.loop, self.loop
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body)
            comp = self.exec_block(node.body)
            if fr.yields is not None:
                return self._yielded(fr, comp)
            return self.settle(comp)
        finally:
            self.stack.pop()

    def _yielded(self, fr, comp):
        """Iterator over what a generator yields."""
        if comp is not None and comp[0] == "go":
            self._apply(comp[1])
            return self._yielded(fr, comp[2])
        if comp is not None and comp[0] == "mix" and pending(comp):
            return self.fork(comp[1], lambda: self._yielded(fr, comp[2]), lambda: self._yielded(fr, comp[3]))
        if comp is not None and comp[0] == "exc":
            raise comp[1]
        return IterBox(fr.yields)

    def bind(self, f, a, args, kwargs, out):
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        n = len(pos)
        for name, v in zip(pos, args):
            out[name] = v
        extra = args[n:]
        if a.vararg:
            out[a.vararg.arg] = tuple(extra)
        elif extra:
            raise AbsRaise("TypeError: %s() takes %d positional arguments but %d were given" % (f.qualname, n, len(args)), self.loc())
        ndef = len(f.defaults)
        for i, name in enumerate(pos):
            if name in out:
                if name in kwargs and i >= len(a.posonlyargs):
                    raise AbsRaise("TypeError: %s() got multiple values for argument '%s'" % (f.qualname, name), self.loc())
                continue
            if name in kwargs:
                out[name] = kwargs.pop(name)
            elif i >= n - ndef:
                out[name] = f.defaults[i - (n - ndef)]
            else:
                raise AbsRaise("TypeError: %s() missing required argument '%s'" % (f.qualname, name), self.loc())
        for x, d in zip(a.kwonlyargs, f.kw_defaults):
            if x.arg in kwargs:
                out[x.arg] = kwargs.pop(x.arg)
            elif d is not UNDEF:
                out[x.arg] = d
            else:
                raise AbsRaise("TypeError: %s() missing keyword-only argument '%s'" % (f.qualname, x.arg), self.loc())
        for name in pos:
            kwargs.pop(name, None)
        if a.kwarg:
            out[a.kwarg.arg] = kwargs
        elif kwargs:
            raise AbsRaise("TypeError: %s() got an unexpected keyword argument '%s'" % (f.qualname, next(iter(kwargs))), self.loc())

    def e_Yield(self, e):
        v = self.eval(e.value) if e.value is not None else None
        fr = self.stack[-1]
        if fr.on_yield is not None:
            return fr.on_yield(v)
        if fr.yields is not None:
            self.log_list(fr.yields)
            fr.yields.append(v)
        return None

    def e_YieldFrom(self, e):
        items = self.iterate(self.eval(e.value))
        fr = self.stack[-1]
        if items is None:
            self.degrade("yield from")
        elif fr.yields is not None:
            self.log_list(fr.yields)
            fr.yields.extend(items)
        return None

    def e_Await(self, e):
        return self.eval(e.value)

    def e_Starred(self, e):
        return self.eval(e.value)

    # comprehensions --------------------------------------------------------------------------------------------
    def e_ListComp(self, e):
        return self._comp(e, lambda: self.eval(e.elt))

    def e_GeneratorExp(self, e):
        return self._each(self._comp(e, lambda: self.eval(e.elt)), IterBox)

    def _each(self, v, f):
        """f of a list, or of each list it can be."""
        if isinstance(v, Phi):
            return Phi(v.c, self._each(v.a, f), self._each(v.b, f))
        return f(v) if isinstance(v, list) else v

    def e_SetComp(self, e):
        r = self._comp(e, lambda: self.eval(e.elt))
        try:
            return self._each(r, set) if not isinstance(r, U) else self.unknown("setcomp", "set comprehension")
        except TypeError:
            return self.unknown("setcomp", "set comprehension")

    def e_DictComp(self, e):
        r = self._comp(e, lambda: (self.hashkey(self.eval(e.key)), self.eval(e.value)))
        return self._each(r, dict)

    def _comp(self, e, elt):
        fr = self.stack[-1]
        child = Frame(fr.func, fr.module, {}, fr.cls, fr, fr.self_)
        child.node = fr.node
        if "__classbody__" in fr.locals:
            child.parent = fr.parent
            child.enclosing = getattr(fr, "enclosing", None)
        out = []
        bad = []

        def rec(i):
            if i == len(e.generators):
                out.append(elt())
                return
            g = e.generators[i]
            if i == 0:
                self.stack.pop()
                try:
                    it = self.res(self.eval(g.iter))
                finally:
                    self.stack.append(child)
            else:
                it = self.res(self.eval(g.iter))
            items = self.iterate(it)
            if items is None:
                self.loop += 1
                self.assign(g.target, self.elem_of(it))
                try:
                    for cnd in g.ifs:
                        self.eval(cnd)
                    rec(i + 1)
                finally:
                    self.loop -= 1
                bad.append(it)
                return
            for x in items:
                self.assign(g.target, x)
                ok = True
                symc = None
                for cnd in g.ifs:
                    c = self.truth(self.eval(cnd))
                    k = self.known(c)
                    if k is None:
                        symc = c if symc is None else tm.and_(symc, c)
                    elif not k:
                        ok = False
                        break
                if not ok:
                    continue
                if symc is not None:
                    self._filtered(symc, out, lambda: rec(i + 1))
                    continue
                rec(i + 1)

        self.stack.append(child)
        try:
            rec(0)
        finally:
            self.stack.pop()
        n = sum(1 for x in out if isinstance(x, Maybe))
        if bad or n > 6:
            if n:
                self.degrade("symbolic comprehension filter")
            u = U("comp", dom="unknown")
            u.elem = [x.v if isinstance(x, Maybe) else x for x in out]
            return u
        return self._choices(out, 0, []) if n else out

    def _filtered(self, c, out, f):
        """Elements that are there only if c holds."""
        n = len(out)
        nf = len(self.facts)
        self.add_fact(c, True)
        self.guards.append((c, True))
        j = []
        self.journals.append(j)
        try:
            f()
        finally:
            self.journals.pop()
            self.guards.pop()
            self._restore_facts(nf)
        if self.journals:
            self.journals[-1].extend(j)
        out[n:] = [Maybe(c, x) if not isinstance(x, Maybe) else Maybe(tm.and_(c, x.c), x.v) for x in out[n:]]

    def _choices(self, out, i, got):
        """The list for each outcome of the undecided filters."""
        while i < len(out) and not isinstance(out[i], Maybe):
            got = got + [out[i]]
            i += 1
        if i == len(out):
            return list(got)
        m = out[i]
        k = self.known(m.c)
        if k is not None:
            return self._choices(out, i + 1, got + [m.v] if k else got)
        return Phi(m.c, self._choices(out, i + 1, got + [m.v]), self._choices(out, i + 1, got))

    # ------------------------------------------------------------------ builtins
    def _make_builtins(self):
        from .extlib import make_builtins

        b = make_builtins(self)
        for n, t in BTYPES.items():
            b[n] = BT(n, t)
        for n in EXCEPTIONS:
            b[n] = Ext("builtins." + n)
        b["NotImplemented"] = Ext("builtins.NotImplemented")
        b["Ellipsis"] = Ellipsis
        b["__name__"] = "analysed"
        b["__debug__"] = True
        return b


NAMEDTUPLE = """
class TupleBase:
    def __iter__(self):
        return iter([getattr(self, n) for n in self._fields])
    def __len__(self):
        return len(self._fields)
    def __getitem__(self, i):
        return [getattr(self, n) for n in self._fields][i]
    def __eq__(self, other):
        return list(self) == list(other)
    def _asdict(self):
        return {n: getattr(self, n) for n in self._fields}
    def _replace(self, **kwargs):
        return type(self)(**{**self._asdict(), **kwargs})
    @classmethod
    def _make(cls, values):
        return cls(*values)
"""
EXC_NAMES = set("builtins." + n for n in EXCEPTIONS)
ORDER = {"Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}
MIRROR = {"Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE"}
DUNDER = dict(Add="add", Sub="sub", Mult="mul", Div="truediv", Pow="pow", Mod="mod", FloorDiv="floordiv", MatMult="matmul", BitAnd="and", BitOr="or", BitXor="xor", LShift="lshift", RShift="rshift")


class _Scratch:
    def __init__(self, it):
        self.it = it

    def __enter__(self):
        self.j = []
        self.it.journals.append(self.j)
        self.nf = len(self.it.facts)
        return self

    def __exit__(self, *a):
        j = self.it.journals.pop()
        self.it._restore_facts(self.nf)
        self.it._undo(j)
        return False


class MockMethod:
    def __init__(self, mock, name):
        self.mock, self.name = mock, name

    def __repr__(self):
        return "<%s.%s>" % (self.mock.name, self.name)


class MockProp:
    def __init__(self, fn):
        self.fn = fn


def pending(comp):
    """Does a completion hold effects that are not applied yet?"""
    return comp is not None and (comp[0] in ("go", "exc") or comp[0] == "mix" and (pending(comp[2]) or pending(comp[3])))


def raising(comp):
    return comp is not None and (comp[0] == "exc" or comp[0] == "go" and raising(comp[2]) or comp[0] == "mix" and (raising(comp[2]) or raising(comp[3])))


def returns(comp):
    return comp is not None and (comp[0] == "ret" or comp[0] == "go" and returns(comp[2]) or comp[0] == "mix" and returns(comp[2]) and returns(comp[3]))


class Cached(Prop):
    """functools.cached_property"""


def memoised(f):
    """functools.lru_cache: results are kept per arguments."""
    memo = {}

    def call(it, a, k):
        key = tuple(("o", id(x)) if isinstance(x, (Obj, Mock, U)) else it.hashkey(x) for x in a) + tuple(sorted((n, it.hashkey(x)) for n, x in k.items()))
        if key not in memo:
            v = it.call(f, a, k)
            it.log_dict(memo, key)
            memo[key] = v
            it.keep.append(list(a))
        return memo[key]

    n = Native(f.name if hasattr(f, "name") else "cached", call)

    def clear(it, a, k):
        for key in list(memo):
            it.log_dict(memo, key)
            del memo[key]

    n.attrs = {"cache_clear": Native("cache_clear", clear), "__wrapped__": f}
    return n


class Masked:
    """The elements of an array that an undecided mask selects; only operations that keep their places are exact."""

    def __init__(self, full, mask):
        self.full, self.mask = full, mask

    def same(self, mask):
        return mask.shape == self.mask.shape and all(x is y or (not isinstance(x, T) and x == y) for x, y in zip(mask.reshape(-1), self.mask.reshape(-1)))


class Maybe:
    """Element of a comprehension whose filter is undecided."""

    def __init__(self, c, v):
        self.c, self.v = c, v


class Suppress:
    """contextlib.suppress"""

    def __init__(self, types):
        self.types = tuple(types)


class Manager:
    """What a contextlib.contextmanager function returns: run(it, body) runs the function with the body in place of its yield."""

    def __init__(self, f, args, kwargs):
        self.f, self.args, self.kwargs = f, args, kwargs

    def run(self, it, body):
        caller = it.stack[-1]

        def on_yield(v):
            it.stack.append(caller)
            try:
                body(v)
            finally:
                it.stack.pop()

        it.next_yield = on_yield
        return it.call(self.f, self.args, self.kwargs)


class IterBox:
    """One-shot iterator over known items."""

    def __init__(self, items):
        self.items = items if isinstance(items, Endless) else list(items)

    def drain(self):
        if isinstance(self.items, Endless):
            return None
        r, self.items = self.items, []
        return r


class Endless:
    """Items of an endless iterator, computed on demand: the n-th one is f(n)."""

    def __init__(self, f):
        self.f, self.state = f, {"n": 0}

    def pop(self, i=0):
        n = self.state["n"]
        self.state["n"] = n + 1
        return self.f(n)

    def __iter__(self):
        return iter(())

    def __len__(self):
        return 1


class Taken:
    """The first 200 items of an endless iterator, taken in order."""

    def __init__(self, it, endless):
        self.it, self.endless = it, endless

    def __len__(self):
        return 200

    def __getitem__(self, i):
        self.it.log_list(self.endless)
        return self.endless.pop(0)


class DefaultDict(dict):
    """collections.defaultdict, collections.Counter"""

    def __init__(self, factory, *a):
        dict.__init__(self, *a)
        self.factory = factory


class Deque:
    def __init__(self, items=(), maxlen=None):
        self.items = list(items)
        self.maxlen = maxlen
        if isinstance(maxlen, int):
            self.items = self.items[len(self.items) - maxlen:] if len(self.items) > maxlen else self.items


class SymRange:
    def __init__(self, *a):
        self.args = a

    name = "range"


def snap(v):
    """Snapshot of a mutable argument at call time (arrays keep identity through .base of the copy's 'of')."""
    if isinstance(v, np.ndarray):
        c = v.copy()
        return c
    if isinstance(v, list):
        return [snap(x) for x in v]
    return v


def ixname(ix):
    if isinstance(ix, U):
        return ix.name
    if isinstance(ix, np.ndarray):
        return "[" + ",".join(map(str, ix.reshape(-1))) + "]"
    return str(ix)


def _condlike(v):
    return isinstance(v, bool) or (isinstance(v, T) and (tm._is_cond(v) or v.dom == "bool"))


def exc_name(e):
    if isinstance(e, str):
        return e.split(":")[0]
    if isinstance(e, Obj):
        return e.cls.name.split(".")[-1]
    if isinstance(e, Ext):
        return e.name.split(".")[-1]
    if isinstance(e, Cls):
        return e.name
    return "Exception"


_gen_cache = {}


def _is_generator(node):
    r = _gen_cache.get(node)
    if r is None:
        r = False
        stack = list(node.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            stack.extend(ast.iter_child_nodes(n))
        _gen_cache[node] = r
    return r
