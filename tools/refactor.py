"""Behaviour-preserving rewrites of a whole copy of the repository, to test that the checks stay quiet on them.

usage: python3 tools/refactor.py COPY KIND...     (kinds: see KINDS; rewrites COPY/src in place)
"""
import ast
import os
import sys

PROTECT = {"__init__"}


class Base(ast.NodeTransformer):
    def __init__(self, path):
        self.path, self.n = path, 0

    def fresh(self, stem):
        self.n += 1
        return "%s_%d" % (stem, self.n)


def names_in(node):
    return {x.id for x in ast.walk(node) if isinstance(x, ast.Name)}


def simple_function(f):
    """No generators, nested scopes with shared names, or zero-argument super outside of a method."""
    for x in ast.walk(f):
        if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.Global, ast.Nonlocal)):
            return False
    return True


class RenameLocals(Base):
    """Local variables get other names."""

    def visit_FunctionDef(self, f):
        inner = [x for x in ast.walk(f) if x is not f and isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef))]
        if inner or not simple_function(f) or any(isinstance(x, ast.Name) and x.id in ("locals", "vars", "exec", "eval") for x in ast.walk(f)):
            self.generic_visit(f)
            return f
        a = f.args
        params = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else [])}
        stored = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params
        imported = {n.asname or n.name.split(".")[0] for x in ast.walk(f) if isinstance(x, (ast.Import, ast.ImportFrom)) for n in x.names}
        stored -= imported
        ren = {n: n + "_local" for n in stored}

        class R(ast.NodeTransformer):
            def visit_Name(self, x):
                if x.id in ren:
                    x.id = ren[x.id]
                return x

            def visit_ExceptHandler(self, x):
                self.generic_visit(x)
                return x

        f.body = [R().visit(s) for s in f.body]
        return f


class InvertIf(Base):
    """if c: A else: B becomes if not c: B else: A; conditional expressions likewise."""

    def visit_If(self, s):
        self.generic_visit(s)
        if s.orelse and not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)):
            s.test, s.body, s.orelse = ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body
        return s

    def visit_IfExp(self, e):
        self.generic_visit(e)
        return ast.IfExp(ast.UnaryOp(ast.Not(), e.test), e.orelse, e.body)


class IfExpToIf(Base):
    """x = a if c else b becomes an if statement, return likewise."""

    def visit_Assign(self, s):
        self.generic_visit(s)
        if isinstance(s.value, ast.IfExp) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute)):
            e = s.value
            return ast.If(e.test, [ast.Assign(s.targets, e.body)], [ast.Assign(s.targets, e.orelse)])
        return s

    def visit_Return(self, s):
        self.generic_visit(s)
        if isinstance(s.value, ast.IfExp):
            e = s.value
            return ast.If(e.test, [ast.Return(e.body)], [ast.Return(e.orelse)])
        return s


class TempReturn(Base):
    """return expression becomes an assignment and a return; conditions likewise."""

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        return f

    def visit_Return(self, s):
        if s.value is None or isinstance(s.value, (ast.Name, ast.Constant)):
            return s
        n = self.fresh("result")
        return [ast.Assign([ast.Name(n, ast.Store())], s.value), ast.Return(ast.Name(n, ast.Load()))]

    def visit_If(self, s):
        self.generic_visit(s)
        return s


class Commute(Base):
    """a * b becomes b * a, a < b becomes b > a."""

    def visit_BinOp(self, e):
        self.generic_visit(e)
        if isinstance(e.op, ast.Mult) and not any(isinstance(x, (ast.Call, ast.List, ast.Tuple, ast.JoinedStr)) and i == 0 for i, x in enumerate((e.left, e.right))):
            if any(isinstance(x, ast.Call) for y in (e.left, e.right) for x in ast.walk(y)):
                return e
            e.left, e.right = e.right, e.left
        return e

    def visit_Compare(self, e):
        self.generic_visit(e)
        flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        if len(e.ops) == 1 and type(e.ops[0]) in flip and not any(isinstance(x, ast.Call) for y in (e.left, e.comparators[0]) for x in ast.walk(y)):
            return ast.Compare(e.comparators[0], [flip[type(e.ops[0])]()], [e.left])
        return e


class Numpy(Base):
    """Other numpy functions with the same result."""

    def visit_Call(self, c):
        self.generic_visit(c)
        f = c.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "np":
            np_ = lambda n: ast.Attribute(ast.Name("np", ast.Load()), n, ast.Load())
            if f.attr == "clip" and len(c.args) == 3 and not c.keywords:
                return ast.Call(np_("minimum"), [ast.Call(np_("maximum"), c.args[:2], []), c.args[2]], [])
            ren = {"abs": "absolute", "amax": "max", "amin": "min", "max": "amax", "min": "amin", "matmul": "dot", "power": "float_power"}
            if f.attr in ren and f.attr != "power":
                c.func = np_(ren[f.attr])
            if f.attr == "sqrt" and len(c.args) == 1 and not c.keywords:
                return ast.BinOp(c.args[0], ast.Pow(), ast.Constant(0.5)) if isinstance(c.args[0], ast.Constant) else c
            if f.attr == "where" and len(c.args) == 3:
                return ast.Call(np_("where"), [ast.Call(np_("logical_not"), [c.args[0]], []), c.args[2], c.args[1]], [])
            if f.attr == "zeros_like" and len(c.args) == 1 and not c.keywords:
                return ast.Call(np_("full_like"), [c.args[0], ast.Constant(0)], [])
            if f.attr == "sum" and len(c.args) == 1 and not c.keywords:
                return ast.Call(np_("add.reduce") if False else ast.Attribute(ast.Call(np_("asarray"), [c.args[0]], []), "sum", ast.Load()), [], [])
        return c

    def visit_BinOp(self, e):
        self.generic_visit(e)
        if isinstance(e.op, ast.Pow) and isinstance(e.right, ast.Constant) and e.right.value == 2 and isinstance(e.left, (ast.Name, ast.Attribute, ast.Subscript)):
            return ast.BinOp(e.left, ast.Mult(), e.left)
        return e


class Comprehension(Base):
    """x = [f(v) for v in s if c] becomes a loop."""

    def convert(self, s, comp, make):
        if not isinstance(comp, ast.ListComp) or len(comp.generators) != 1:
            return s
        g = comp.generators[0]
        n = self.fresh("items")
        store = ast.Expr(ast.Call(ast.Attribute(ast.Name(n, ast.Load()), "append", ast.Load()), [comp.elt], []))
        body = [store]
        for c in reversed(g.ifs):
            body = [ast.If(c, body, [])]
        return [ast.Assign([ast.Name(n, ast.Store())], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, []), make(ast.Name(n, ast.Load()))]

    def inside(self, value):
        """The list comprehension that is the value or the only argument of the call that is."""
        if isinstance(value, ast.ListComp):
            return value, lambda v: v
        if isinstance(value, ast.Call) and len(value.args) >= 1 and isinstance(value.args[0], ast.ListComp) and isinstance(value.func, (ast.Name, ast.Attribute)):
            if isinstance(value.func, ast.Name) or isinstance(value.func.value, ast.Name):
                return value.args[0], lambda v: ast.Call(value.func, [v] + value.args[1:], value.keywords)
        return None, None

    def visit_ClassDef(self, c):
        c.body = [self.visit(x) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) else x for x in c.body]
        return c

    def visit_Module(self, m):
        m.body = [self.visit(x) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) else x for x in m.body]
        return m

    def visit_Assign(self, s):
        comp, wrap = self.inside(s.value)
        if comp is None:
            return s
        return self.convert(s, comp, lambda v: ast.Assign(s.targets, wrap(v)))

    def visit_Return(self, s):
        comp, wrap = self.inside(s.value) if s.value is not None else (None, None)
        if comp is None:
            return s
        return self.convert(s, comp, lambda v: ast.Return(wrap(v)))


class WhileLoop(Base):
    """for x in s becomes a loop over the indices of list(s)."""

    def visit_For(self, s):
        self.generic_visit(s)
        if s.orelse:
            return s
        seq, ix = self.fresh("sequence"), self.fresh("index")
        first = ast.Assign([ast.Name(seq, ast.Store())], ast.Call(ast.Name("list", ast.Load()), [s.iter], []))
        get = ast.Assign([s.target], ast.Subscript(ast.Name(seq, ast.Load()), ast.Name(ix, ast.Load()), ast.Load()))
        return [first, ast.For(ast.Name(ix, ast.Store()), ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [ast.Name(seq, ast.Load())], [])], []), [get] + s.body, [])]


class TrueWhile(Base):
    """for x in s becomes while with an index, advanced before the body."""

    def visit_For(self, s):
        self.generic_visit(s)
        if s.orelse:
            return s
        seq, ix = self.fresh("sequence"), self.fresh("index")
        N = lambda n, st=False: ast.Name(n, ast.Store() if st else ast.Load())
        return [
            ast.Assign([N(seq, True)], ast.Call(N("list"), [s.iter], [])),
            ast.Assign([N(ix, True)], ast.Constant(0)),
            ast.While(ast.Compare(N(ix), [ast.Lt()], [ast.Call(N("len"), [N(seq)], [])]),
                      [ast.Assign([s.target], ast.Subscript(N(seq), N(ix), ast.Load())), ast.AugAssign(N(ix, True), ast.Add(), ast.Constant(1))] + s.body, []),
        ]


class Delegate(Base):
    """Every method's body moves to a private helper method."""

    def visit_ClassDef(self, c):
        self.generic_visit(c)
        body = []
        for f in c.body:
            if not isinstance(f, ast.FunctionDef) or f.decorator_list or not simple_function(f) or f.name.startswith("__") and f.name != "__init__":
                body.append(f)
                continue
            a = f.args
            if not a.args or a.args[0].arg != "self" or a.posonlyargs:
                body.append(f)
                continue
            # helpers named by a property or class attribute stay where they are
            used = [x for g in c.body if not isinstance(g, ast.FunctionDef) for x in ast.walk(g) if isinstance(x, ast.Name) and x.id == f.name]
            doc = [f.body[0]] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) and isinstance(f.body[0].value.value, str) else []
            rest = f.body[len(doc):]
            if not rest or len(rest) == 1 and isinstance(rest[0], (ast.Raise, ast.Pass)) or used:
                body.append(f)
                continue
            name = "_%s_%s_body" % (c.name.strip("_").lower(), f.name.replace("_", "u"))
            call = ast.Call(
                ast.Attribute(ast.Name("self", ast.Load()), name, ast.Load()),
                [ast.Name(x.arg, ast.Load()) for x in a.args[1:]] + ([ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load())] if a.vararg else []),
                [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs] + ([ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load()))] if a.kwarg else []),
            )
            strip = lambda xs: [ast.arg(x.arg) for x in xs]
            helper = ast.FunctionDef(name, ast.arguments([], strip(a.args), ast.arg(a.vararg.arg) if a.vararg else None, strip(a.kwonlyargs), [None] * len(a.kwonlyargs), ast.arg(a.kwarg.arg) if a.kwarg else None, []), rest, [], None)
            f.body = doc + [ast.Return(call)]
            body += [f, helper]
        c.body = body
        return c


class SplitTail(Base):
    """The value of every return of a method with several statements is computed in a helper function of the module."""

    def visit_Module(self, m):
        self.helpers = []
        self.generic_visit(m)
        at = 0
        for i, s in enumerate(m.body):
            if isinstance(s, (ast.Import, ast.ImportFrom)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                at = i + 1
        m.body[at:at] = self.helpers
        return m

    def visit_FunctionDef(self, f):
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Yield)) and x is not f for x in ast.walk(f)):
            return f
        a = f.args
        local = {x.arg for x in a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else [])}
        local |= {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        local |= {n.asname or n.name.split(".")[0] for x in ast.walk(f) if isinstance(x, (ast.Import, ast.ImportFrom)) for n in x.names}
        outer = self

        class R(ast.NodeTransformer):
            def visit_Return(self, s):
                v = s.value
                if v is None or isinstance(v, (ast.Name, ast.Constant, ast.Attribute)):
                    return s
                if any(isinstance(x, ast.Name) and x.id == "super" or isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.NamedExpr)) or isinstance(x, ast.Attribute) and x.attr.startswith("__") for x in ast.walk(v)):
                    return s
                used = sorted(names_in(v) & local)
                n = "_%s_value_%d" % (f.name.strip("_"), len(outer.helpers))
                outer.helpers.append(ast.FunctionDef(n, ast.arguments([], [ast.arg(u) for u in used], None, [], [], None, []), [ast.Return(v)], [], None))
                return ast.Return(ast.Call(ast.Name(n, ast.Load()), [ast.Name(u, ast.Load()) for u in used], []))

        f.body = [R().visit(s) for s in f.body]
        return f


class Alias(Base):
    """self._x used several times in a method that does not assign it or call anything that could: read once into a local."""

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        if not f.args.args or f.args.args[0].arg != "self" or any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.comprehension)) and x is not f for x in ast.walk(f)):
            return f
        return f


class Elif(Base):
    """if with returns in both branches: early return."""

    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.If) and s.orelse and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise)) and not any(isinstance(x, (ast.Break, ast.Continue)) for x in s.body):
                out.append(ast.If(s.test, s.body, []))
                out += self.block(s.orelse)
            else:
                out.append(s)
        return out

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        f.body = self.block(f.body)
        return f


class DeMorgan(Base):
    """a and b becomes not (not a or not b) in conditions."""

    def visit_If(self, s):
        self.generic_visit(s)
        if isinstance(s.test, ast.BoolOp):
            s.test = ast.UnaryOp(ast.Not(), ast.BoolOp(ast.Or() if isinstance(s.test.op, ast.And) else ast.And(), [ast.UnaryOp(ast.Not(), v) for v in s.test.values]))
        return s

    def visit_Assert(self, s):
        self.generic_visit(s)
        return ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Raise(ast.Call(ast.Name("AssertionError", ast.Load()), [s.msg] if s.msg else [], []), None)], [])


class Unparse(Base):
    """Formatting and comments only."""


class Docs(Base):
    """No documentation strings and annotations of arguments."""

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        if len(f.body) > 1 and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant):
            f.body = f.body[1:]
        for x in f.args.args + f.args.kwonlyargs:
            x.annotation = None
        f.returns = None
        return f


class SortMethods(Base):
    """Methods in another order (properties and their setters stay together)."""

    def visit_ClassDef(self, c):
        plain = [f for f in c.body if isinstance(f, ast.FunctionDef) and not f.decorator_list]
        others = [f for f in c.body if f not in plain]
        used = {x.id for o in others if not isinstance(o, ast.FunctionDef) for x in ast.walk(o) if isinstance(x, ast.Name)}
        early = [f for f in plain if f.name in used]
        late = [f for f in plain if f not in early]
        c.body = [o for o in others if isinstance(o, ast.Expr)] + early + [o for o in others if not isinstance(o, ast.Expr)] + late[::-1]
        return c


class Keywords(Base):
    """Statements that do nothing in every function."""

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        at = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        f.body.insert(at, ast.If(ast.Constant(False), [ast.Pass()], []))
        return f


class Unpack(Base):
    """a, b = x, y in sequence with temporaries; self.x = self.y = v split."""

    def visit_Assign(self, s):
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and len(s.value.elts) == len(s.targets[0].elts) and not any(isinstance(x, ast.Starred) for x in s.targets[0].elts + s.value.elts):
            ns = [self.fresh("part") for _ in s.value.elts]
            return [ast.Assign([ast.Name(n, ast.Store())], v) for n, v in zip(ns, s.value.elts)] + [ast.Assign([t], ast.Name(n, ast.Load())) for n, t in zip(ns, s.targets[0].elts)]
        return s


class AugExpand(Base):
    """x += 1 of plain numbers held in names becomes x = x + 1."""

    def visit_AugAssign(self, s):
        if isinstance(s.target, ast.Attribute) and isinstance(s.value, ast.Constant):
            return ast.Assign([s.target], ast.BinOp(ast.Attribute(s.target.value, s.target.attr, ast.Load()), s.op, s.value))
        return s


class DictLiteral(Base):
    """dict(a=1) becomes {"a": 1} and the other way round."""

    def visit_Call(self, c):
        self.generic_visit(c)
        if isinstance(c.func, ast.Name) and c.func.id == "dict" and not c.args and all(k.arg for k in c.keywords):
            return ast.Dict([ast.Constant(k.arg) for k in c.keywords], [k.value for k in c.keywords])
        return c


class HoistConst(Base):
    """Numbers inside functions become constants of the module."""

    def visit_Module(self, tree):
        self.consts = {}
        self.depth = 0
        self.generic_visit(tree)
        k = 1 if tree.body and isinstance(tree.body[0], ast.Expr) and isinstance(tree.body[0].value, ast.Constant) else 0
        while k < len(tree.body) and isinstance(tree.body[k], ast.ImportFrom) and tree.body[k].module == "__future__":
            k += 1
        tree.body[k:k] = [ast.Assign([ast.Name(n, ast.Store())], ast.Constant(v)) for (_, v), n in self.consts.items()]
        return tree

    def visit_FunctionDef(self, f):
        self.depth += 1
        f.body = [self.visit(x) for x in f.body]
        self.depth -= 1
        return f

    def visit_Constant(self, c):
        if self.depth and isinstance(c.value, (int, float)) and not isinstance(c.value, bool):
            n = self.consts.setdefault((type(c.value).__name__, c.value), "_NUMBER_%d" % len(self.consts))
            return ast.Name(n, ast.Load())
        return c

    def visit_JoinedStr(self, s):
        return s


class TempArgs(Base):
    """The arguments of a call that is assigned, returned or executed get names first."""

    def lift(self, c):
        f = c.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
            pass
        else:
            while isinstance(f, ast.Attribute):
                f = f.value
            if not isinstance(f, ast.Name):
                return []
        if any(isinstance(a, ast.Starred) for a in c.args) or any(k.arg is None for k in c.keywords):
            return []
        out = []
        for k, a in enumerate(c.args):
            if not isinstance(a, (ast.Name, ast.Constant)):
                n = self.fresh("value")
                out.append(ast.Assign([ast.Name(n, ast.Store())], a))
                c.args[k] = ast.Name(n, ast.Load())
        for k in c.keywords:
            if not isinstance(k.value, (ast.Name, ast.Constant)):
                n = self.fresh("value")
                out.append(ast.Assign([ast.Name(n, ast.Store())], k.value))
                k.value = ast.Name(n, ast.Load())
        return out

    def stmt(self, s):
        self.generic_visit(s)
        if getattr(self, "inside", 0) and isinstance(s.value, ast.Call):
            return self.lift(s.value) + [s]
        return s

    visit_Assign = visit_Return = visit_Expr = stmt

    def visit_FunctionDef(self, f):
        self.inside = getattr(self, "inside", 0) + 1
        self.generic_visit(f)
        self.inside -= 1
        return f


class Accumulate(Base):
    """x = [f(y) for y in z] becomes a loop that appends; {k: v for ...} likewise."""

    def visit_Assign(self, s):
        self.generic_visit(s)
        v = s.value
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(v, (ast.ListComp, ast.DictComp)) and len(v.generators) == 1 and getattr(self, "inside", 0):
            g = v.generators[0]
            if s.targets[0].id in names_in(v):
                return s
            ren = {x.id: x.id + "_it" for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            if any(isinstance(x, (ast.Lambda, ast.ListComp, ast.DictComp, ast.GeneratorExp, ast.SetComp)) for part in ast.iter_child_nodes(v) for x in ast.walk(part)):
                return s

            class R(ast.NodeTransformer):
                def visit_Name(self, x):
                    return ast.Name(ren.get(x.id, x.id), x.ctx)

            it = g.iter
            tgt, ifs = R().visit(g.target), [R().visit(i) for i in g.ifs]
            n = s.targets[0].id
            if isinstance(v, ast.ListComp):
                init, add = ast.List([], ast.Load()), ast.Expr(ast.Call(ast.Attribute(ast.Name(n, ast.Load()), "append", ast.Load()), [R().visit(v.elt)], []))
            else:
                init, add = ast.Dict([], []), ast.Assign([ast.Subscript(ast.Name(n, ast.Load()), R().visit(v.key), ast.Store())], R().visit(v.value))
            body = [add]
            for i in reversed(ifs):
                body = [ast.If(i, body, [])]
            return [ast.Assign([ast.Name(n, ast.Store())], init), ast.For(tgt, it, body, [])]
        return s

    def visit_FunctionDef(self, f):
        self.inside = getattr(self, "inside", 0) + 1
        self.generic_visit(f)
        self.inside -= 1
        return f


PRIVATE = None


def private_names(root):
    """Private attributes and methods of the package that neither its tests nor any string mention."""
    import re

    used, tests, strings = set(), set(), set()
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(".py"):
                text = open(os.path.join(d, f), encoding="utf-8").read()
                if os.path.relpath(d, root).split(os.sep)[0] == "src":
                    tree = ast.parse(text)
                    for x in ast.walk(tree):
                        if isinstance(x, ast.Attribute):
                            used.add(x.attr)
                        elif isinstance(x, ast.FunctionDef):
                            used.add(x.name)
                        elif isinstance(x, ast.Constant) and isinstance(x.value, str):
                            strings |= set(re.findall(r"\w+", x.value)) if len(x.value) < 40 else set()
                        elif isinstance(x, (ast.Name, ast.keyword, ast.arg)):
                            pass
                else:
                    tests |= set(re.findall(r"\w+", text))
    return {u for u in used if re.match(r"_[a-z]", u)} - tests - strings - {"_asdict", "_replace"}


class RenamePrivate(Base):
    """Private attributes and methods that the tests do not mention get other names in the whole package."""

    def __init__(self, path):
        global PRIVATE
        super().__init__(path)
        if PRIVATE is None:
            PRIVATE = private_names(path.split(os.sep + "src" + os.sep)[0])

    def visit_Attribute(self, a):
        self.generic_visit(a)
        if a.attr in PRIVATE:
            a.attr += "_renamed"
        return a

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        if f.name in PRIVATE:
            f.name += "_renamed"
        return f

    def visit_ClassDef(self, c):
        for s in c.body:
            for t in getattr(s, "targets", [getattr(s, "target", None)]):
                if isinstance(t, ast.Name) and t.id in PRIVATE:
                    n = t.id
                    for x in c.body:
                        if not isinstance(x, ast.FunctionDef):
                            for y in ast.walk(x):
                                if isinstance(y, ast.Name) and y.id == n:
                                    y.id = n + "_renamed"
        self.generic_visit(c)
        return c


KINDS = {c.__name__: c for c in (Unparse, Docs, RenameLocals, InvertIf, IfExpToIf, TempReturn, Commute, Numpy, Comprehension, WhileLoop, TrueWhile, Delegate, SplitTail, Elif, DeMorgan, SortMethods, Keywords, Unpack, AugExpand, DictLiteral, HoistConst, TempArgs, Accumulate, RenamePrivate)}


def main():
    root, kinds = sys.argv[1], sys.argv[2:]
    for d, _, fs in os.walk(os.path.join(root, "src")):
        for f in fs:
            if not f.endswith(".py"):
                continue
            p = os.path.join(d, f)
            tree = ast.parse(open(p, encoding="utf-8").read())
            for k in kinds:
                tree = KINDS[k](p).visit(tree)
                ast.fix_missing_locations(tree)
            open(p, "w", encoding="utf-8").write(ast.unparse(tree) + "\n")


if __name__ == "__main__":
    main()
