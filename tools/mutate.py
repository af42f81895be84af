"""Strength measurement: small semantic mutants of the sources, and which checks notice them.

  mutate.py list REPO                     print the number of mutants per operator
  mutate.py run REPO OUT N WORKERS SEED   draw N mutants, keep those the existing tests accept,
                                          run the checks that look at the mutated function

Nothing here is part of a check: it tells which changes the checks do not see.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAVY = ["V02", "S03", "S05", "S04", "Z01"]
PAIRS = [("low", "high"), ("min", "max"), ("minimum", "maximum"), ("sin", "cos"), ("limits", "nominal_state"),
         ("_limits", "_nominal_state"), ("limits", "nominal_values"), ("_limits", "_nominal_values"), ("any", "all"), ("zeros_like", "ones_like"),
         ("zeros", "ones"), ("argmin", "argmax"), ("ceil", "floor"), ("append", "insert0"), ("reset", None)]
SWAP = {}
for a, b in PAIRS[:-2]:
    SWAP[a] = b
    SWAP[b] = a


class Sites(ast.NodeVisitor):
    def __init__(self, text):
        self.out, self.stack, self.text = [], [], text
        self.attrs = []

    def add(self, node, new, op):
        self.out.append(dict(l0=node.lineno, c0=node.col_offset, l1=node.end_lineno, c1=node.end_col_offset,
                             old=ast.unparse(node), new=new, op=op, fn=".".join(self.stack)))

    def expr(self, node, new, op):
        self.add(node, "(" + (new if isinstance(new, str) else ast.unparse(ast.fix_missing_locations(new))) + ")", op)

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        for s in n.body:
            self.visit(s)
        self.stack.pop()

    def visit_FunctionDef(self, n):
        if any(ast.unparse(d).endswith("abstractmethod") for d in n.decorator_list):
            return
        self.stack.append(n.name)
        attrs = sorted({x.attr for x in ast.walk(n) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self"})
        self.attrs.append(attrs)
        for d in n.args.defaults:
            self.visit(d)
        for s in n.body:
            self.visit(s)
        self.attrs.pop()
        self.stack.pop()

    def visit_AnnAssign(self, n):
        if n.value:
            self.visit(n.value)

    def visit_Raise(self, n):
        pass

    def visit_JoinedStr(self, n):
        pass

    def visit_Assert(self, n):
        pass

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        if len(self.stack) > 1 or isinstance(n.value, ast.Call):
            self.add(n, "pass", "del-call")
        self.generic_visit(n)

    def visit_Assign(self, n):
        if self.attrs and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets) and self.stack[-1] != "__init__":
            self.add(n, "pass", "del-assign")
        self.visit(n.value)

    def visit_AugAssign(self, n):
        self.add(n, "pass", "del-aug")
        flip = {ast.Add: "-=", ast.Sub: "+=", ast.Mult: "/=", ast.Div: "*="}.get(type(n.op))
        if flip:
            self.add(n, "%s %s %s" % (ast.unparse(n.target), flip, ast.unparse(n.value)), "aug")
        self.add(n, "%s = %s" % (ast.unparse(n.target), ast.unparse(n.value)), "aug-set")
        self.visit(n.value)

    def visit_If(self, n):
        self.expr(n.test, "not (%s)" % ast.unparse(n.test), "if-not")
        self.expr(n.test, "True", "if-true")
        self.expr(n.test, "False", "if-false")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.expr(n.test, "not (%s)" % ast.unparse(n.test), "ifexp-not")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        for old, new in ((ast.Add, "-"), (ast.Sub, "+"), (ast.Mult, "/"), (ast.Div, "*")):
            if isinstance(n.op, old) and not isinstance(n.left, (ast.Constant,)) or isinstance(n.op, old) and not isinstance(getattr(n.left, "value", 0), str):
                self.expr(n, "(%s) %s (%s)" % (ast.unparse(n.left), new, ast.unparse(n.right)), "arith")
        if isinstance(n.op, (ast.Add, ast.Mult)):
            self.expr(n, n.left, "drop-right")
            self.expr(n, n.right, "drop-left")
        if isinstance(n.op, ast.Sub):
            self.expr(n, "(%s) - (%s)" % (ast.unparse(n.right), ast.unparse(n.left)), "sub-swap")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.USub, ast.Not)):
            self.expr(n, n.operand, "un-drop")
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            l, r = ast.unparse(n.left), ast.unparse(n.comparators[0])
            for new in {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!="], ast.NotEq: ["=="],
                        ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}.get(type(n.ops[0]), []):
                self.expr(n, "(%s) %s (%s)" % (l, new, r), "cmp")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        for i in range(len(n.values)):
            rest = [ast.unparse(v) for j, v in enumerate(n.values) if j != i]
            self.expr(n, (" and " if isinstance(n.op, ast.And) else " or ").join("(%s)" % r for r in rest), "bool-drop")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.expr(n, repr(not v), "const")
        elif isinstance(v, (int, float)):
            for w in {v + 1, -v, v - 1} - {v}:
                self.expr(n, repr(w), "const")

    def visit_Attribute(self, n):
        if isinstance(n.ctx, ast.Load):
            if n.attr in SWAP and SWAP[n.attr]:
                self.expr(n, "%s.%s" % (ast.unparse(n.value), SWAP[n.attr]), "attr-pair")
            if self.attrs and isinstance(n.value, ast.Name) and n.value.id == "self":
                for a in self.attrs[-1]:
                    if a != n.attr and (a.strip("_")[:2] == n.attr.strip("_")[:2] or a[-4:] == n.attr[-4:]):
                        self.expr(n, "self." + a, "attr")
        self.visit(n.value)

    def visit_Subscript(self, n):
        if isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
            pass
        self.generic_visit(n)

    def visit_Call(self, n):
        args = [ast.unparse(a) for a in n.args]
        kws = [("%s=%s" % (k.arg, ast.unparse(k.value)) if k.arg else "**" + ast.unparse(k.value)) for k in n.keywords]
        f = ast.unparse(n.func)
        for i in range(len(kws)):
            self.expr(n, "%s(%s)" % (f, ", ".join(args + kws[:i] + kws[i + 1:])), "kw-drop")
        for i in range(len(args) - 1):
            b = args[:]
            b[i], b[i + 1] = b[i + 1], b[i]
            self.expr(n, "%s(%s)" % (f, ", ".join(b + kws)), "arg-swap")
        if isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not args and not kws:
            self.expr(n, n.func.value, "copy-drop")
        if f in ("np.array", "np.abs", "abs", "np.copy", "np.sign", "list", "tuple", "dict", "np.clip", "float", "np.sqrt", "deepcopy", "copy.deepcopy", "np.concatenate") and len(args) >= 1:
            self.expr(n, args[0], "wrap-drop")
        self.generic_visit(n)

    def visit_Return(self, n):
        if n.value is not None and len(self.stack) and not isinstance(n.value, (ast.Constant, ast.Name)):
            pass
        self.generic_visit(n)

    def visit_For(self, n):
        self.expr(n.iter, "list(%s)[1:]" % ast.unparse(n.iter), "loop-first")
        self.expr(n.iter, "list(%s)[:-1]" % ast.unparse(n.iter), "loop-last")
        self.visit(n.iter)
        for s in n.body:
            self.visit(s)


def files(repo):
    out = subprocess.run(["git", "-C", repo, "ls-files", "src/*.py"], capture_output=True, text=True).stdout.split()
    return out


def mutants(repo):
    all_ = []
    for f in files(repo):
        text = open(os.path.join(repo, f), newline="").read()
        s = Sites(text)
        s.visit(ast.parse(text))
        for i, m in enumerate(s.out):
            m["file"] = f
            all_.append(m)
    return all_


def mutate(text, m):
    nl = "\r\n" if "\r\n" in text else "\n"
    lines = text.split(nl)
    # column offsets count utf-8 bytes
    a = lines[m["l0"] - 1].encode()[:m["c0"]].decode()
    b = lines[m["l1"] - 1].encode()[m["c1"]:].decode()
    return nl.join(lines[:m["l0"] - 1] + [a + m["new"] + b] + lines[m["l1"]:])


def env(d):
    return dict(os.environ, PYTHONPATH=d + "/src", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", QT_QPA_PLATFORM="offscreen", OMP_NUM_THREADS="1")


def checks_for(m, table):
    out = []
    for pid, (fns, fls) in table.items():
        key = m["file"] + "|" + m["fn"]
        if key not in table["*"][0] and key[:key.index("|") + 1] + m["fn"].split(".")[-1] in table["*"][0]:
            key = m["file"] + "|" + m["fn"].split(".")[-1]      # a nested function
        if key in fns or key not in table["*"][0] and any(k.startswith(key) for k in fns):
            out.append(pid)
    out = [p for p in out if p != "*"]
    return sorted(out, key=lambda p: (HEAVY.index(p) + 1 if p in HEAVY else 0, p))


def load_table(verif):
    t = {"*": (set(), set())}
    for n in sorted(os.listdir(verif + "/evidence")):
        if n.endswith(".json") and "violations" not in n:
            c = json.load(open(verif + "/evidence/" + n))["coverage"]
            fns, fls = set(), set()
            for x in c["functions"]:
                path, fn = x.split(" ", 1)
                path = path.rsplit(":", 1)[0]
                fns.add(path + "|" + fn.replace(".<lambda>", ""))
                fls.add(path)
            t[n[:-5]] = (fns, fls)
            t["*"][0].update(fns)
            t["*"][1].update(fls)
    return t


def work(arg):
    m, table, heavy = arg
    k = mp.current_process()._identity[0]
    base = "/tmp/mut/w%d" % k
    path = base + "/repo/" + m["file"]
    text = open("/tmp/mut/clean/" + m["file"], newline="").read()
    new = mutate(text, m)
    res = dict(m)
    try:
        compile(new, m["file"], "exec")
    except SyntaxError:
        res["status"] = "syntax"
        return res
    open(path, "w", newline="").write(new)
    try:
        if m.get("status") not in ("survived", "caught"):
            try:
                p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=120", "tests"], cwd=base + "/repo",
                                   env=env(base + "/repo"), capture_output=True, timeout=240)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = 99
            if rc:
                res["status"] = "tests"
                return res
        res["checks"] = {}
        todo = checks_for(m, table)
        res["status"] = "survived"
        for pid in todo:
            if (pid in HEAVY) != heavy:
                continue
            try:
                p = subprocess.run(["python3-vt", "-W", "ignore", "-B", "-m", "gemcheck.check", pid], cwd=base + "/verif", env=dict(os.environ, GEM_REPO=base + "/repo"),
                                   capture_output=True, timeout=900, text=True)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = 98
            res["checks"][pid] = rc
            if rc == 1:
                res["status"] = "caught"
                break
    finally:
        open(path, "w", newline="").write(text)
    return res


def main():
    if sys.argv[1] == "list":
        from collections import Counter
        ms = mutants(sys.argv[2])
        print(len(ms), Counter(m["op"] for m in ms))
        return
    repo, out, n, workers, seed = sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), int(sys.argv[6])
    os.makedirs("/tmp/mut", exist_ok=True)
    if not os.path.isdir("/tmp/mut/clean"):
        shutil.copytree(repo, "/tmp/mut/clean", symlinks=True)
    for k in range(1, 3 * workers + 1):
        base = "/tmp/mut/w%d" % k
        if os.path.isdir(base):
            shutil.rmtree(base)
        if k <= workers:
            os.makedirs(base)
            shutil.copytree("/tmp/mut/clean", base + "/repo", symlinks=True)
            shutil.copytree(VERIF, base + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "__pycache__"))
    table = load_table(os.environ.get("MUT_TABLE", VERIF))
    heavy = sys.argv[1] == "heavy"
    if sys.argv[1] in ("again", "heavy"):       # the survivors of an earlier run, OUT.again / OUT.heavy
        ms = [json.loads(l) for l in open(out)]
        ms = [m for m in ms if m["status"] == "survived"]
        out = out + "." + sys.argv[1]
    else:
        ms = mutants("/tmp/mut/clean")
        done = set()
        rng = random.Random(seed)
        by = {}
        for m in ms:
            by.setdefault(m["file"] + m["fn"], []).append(m)
        pick = []
        keys = sorted(by)
        rng.shuffle(keys)
        while len(pick) < n and keys:
            for k in list(keys):
                if not by[k]:
                    keys.remove(k)
                    continue
                op = rng.choice(sorted({x["op"] for x in by[k]}))
                one = rng.choice([x for x in by[k] if x["op"] == op])
                by[k].remove(one)
                pick.append(one)
        ms = pick[:n]
        rng.shuffle(ms)
    with mp.Pool(workers) as pool, open(out, "w") as f:
        for r in pool.imap_unordered(work, [(m, table, heavy) for m in ms]):
            f.write(json.dumps(r) + "\n")
            f.flush()


if __name__ == "__main__":
    main()

