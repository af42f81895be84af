"""Queries over the syntax trees of all library modules with import aliases resolved."""
import ast
import os

from .check import SRC


def modules(pkg="gym_electric_motor"):
    base = os.path.join(SRC, pkg)
    for d, _, fs in sorted(os.walk(base)):
        for f in sorted(fs):
            if f.endswith(".py"):
                p = os.path.join(d, f)
                with open(p, encoding="utf-8") as h:
                    yield os.path.relpath(p, SRC).replace(os.sep, "/"), ast.parse(h.read(), p)


class _Scope(ast.NodeVisitor):
    def __init__(self, rel, aliases, out):
        self.rel, self.al, self.out, self.q = rel, [aliases], out, []

    def where(self):
        return self.rel + ":" + (".".join(self.q) or "<module>")

    def bind(self, name, target):
        self.al[-1][name] = target

    def visit_Import(self, n):
        for a in n.names:
            self.bind(a.asname or a.name.split(".")[0], a.name if a.asname else a.name.split(".")[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.bind(a.asname or a.name, ("." * n.level) + (n.module or "") + "." + a.name)

    def _func(self, n):
        self.q.append(n.name)
        args = {a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs} if not isinstance(n, ast.ClassDef) else set()
        self.al.append({a: None for a in args})
        self.generic_visit(n)
        self.al.pop()
        self.q.pop()

    visit_FunctionDef = visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, n):
        self.q.append(n.name)
        self.al.append({})
        self.generic_visit(n)
        self.al.pop()
        self.q.pop()

    def resolve(self, n):
        if isinstance(n, ast.Name):
            for d in reversed(self.al):
                if n.id in d:
                    return d[n.id]
            return None
        if isinstance(n, ast.Attribute):
            b = self.resolve(n.value)
            return None if b is None else b + "." + n.attr
        return None

    def visit_Assign(self, n):
        self.generic_visit(n)
        t = self.resolve(n.value)
        for x in n.targets:
            if isinstance(x, ast.Name):
                self.bind(x.id, t)

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            r = self.resolve(n)
            if r:
                self.out.append((self.where(), r, n, None))

    def visit_Attribute(self, n):
        r = self.resolve(n)
        if r:
            self.out.append((self.where(), r, n, None))
        else:
            self.generic_visit(n)

    def visit_Call(self, n):
        r = self.resolve(n.func)
        name = r or ("." + n.func.attr if isinstance(n.func, ast.Attribute) else None)
        if name:
            self.out.append((self.where(), name, n.func, n))
        if isinstance(n.func, ast.Attribute) and not r:
            self.visit(n.func.value)
        elif not isinstance(n.func, (ast.Attribute, ast.Name)):
            self.visit(n.func)
        for a in n.args:
            self.visit(a)
        for k in n.keywords:
            self.visit(k.value)


def external_uses(pkg="gym_electric_motor"):
    """(function, resolved dotted name, node, call or None) for every use of an imported name and every method call (".name")."""
    out = []
    for rel, tree in modules(pkg):
        # imports inside functions are bound when visited; a first pass binds the module level ones for forward uses
        al = {}
        pre = _Scope(rel, al, [])
        for s in tree.body:
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                pre.visit(s)
        _Scope(rel, al, out).visit(tree)
    return out
