"""Every environment is the drive its documentation describes: components, quantities, weights, cycle time and motor parameters."""
import ast
import inspect
import re

from ..check import norm
from ..corpus import *
from ..rig import S, m
from ..values import *

ATTR = {"Supply": "supply", "Converter": "converter", "Motor": "electrical_motor", "Load": "mechanical_load"}
ROLE = re.compile(r":py:class:`[.~]*([\w.]+)`")
NAME = re.compile(r"[a-z]+(?:_[a-z]+)*")


def docstring(c):
    d = ast.get_docstring(c.node)
    return inspect.cleandoc(d) if d else ""


def sections(doc):
    """The headed sections of a class documentation: {title: text}."""
    out, title = {}, None
    for line in doc.splitlines():
        h = re.match(r"^(\w[\w -]*):\s*$", line)
        if h:
            title = h.group(1).strip()
            out[title] = ""
        elif title is not None:
            out[title] += line + "\n"
    return out


def components(text):
    """The bullet list of default components: {entry: text}."""
    out = {}
    for b in re.split(r"(?m)^\s*-\s+", text)[1:]:
        k, _, v = b.partition(":")
        out[k.strip()] = " ".join(v.split())
    return out


def quoted(text):
    """State names of a text that lists them in quotes (unbalanced quotes are tolerated)."""
    return [x for x in re.findall(r"'+\s*([A-Za-z_][A-Za-z_]*)\s*'*", text)]


def find(it, name):
    try:
        return it.find_class(name)
    except KeyError:
        return None


def is_a(ck, it, rule, cons, o, name):
    want = find(it, name.rsplit(".", 1)[-1])
    if want is None:
        ck.undecided(rule, cons, "the documented class %s does not exist" % name)
        return
    o = it.res(o)
    ck.require(rule, cons, isinstance(o, Obj) and o.cls is not None and o.cls.issub(want), "documented: %s, built: %s" % (name, getattr(getattr(o, "cls", None), "name", o)))


def sub_generators(it, g):
    """The generators of single quantities behind a generator."""
    try:
        subs = it.iterate(it.getattr(g, "_sub_generators"))
    except AbsRaise:
        return [g]
    return [x for s in subs for x in sub_generators(it, s)]


def run(ck):
    ck.rule("components", "supply, converter, motor, load, reference generator, reward function and visualization are of the documented classes")
    ck.rule("quantities", "referenced, rewarded and constrained quantities and their weights are the documented ones")
    ck.rule("names", "the documented states exist and the references are the documented ones in the documented order")
    ck.rule("cycle", "the control cycle has the documented duration, in the environment, the system and its converter")
    ck.rule("parameters", "the default parameters of every motor are those of its documented table")
    w = World(ck)
    it = w.it
    ck.require("components", "environments", len(w.envs) >= 54, "%d environments" % len(w.envs))
    for name, c in sorted(w.envs.items()):
        doc = sections(docstring(c))
        if "Default Components" not in doc:
            ck.undecided("components", name, "no documentation of default components")
            continue
        with ck.guard("components", name):
            one(ck, w, name, c, doc)
    motors(ck, it)
    ck.min_decided = 500


def one(ck, w, name, c, doc):
    it = w.it
    e = it.call(c, [], {})
    ps = it.res(it.getattr(e, "physical_system"))
    base = it.res(it.getattr(ps, "unwrapped"))
    comp = components(doc["Default Components"])
    g = it.getattr(e, "reference_generator")
    r = it.getattr(e, "reward_function")
    for entry, text in comp.items():
        roles = ROLE.findall(text)
        if not roles:
            continue
        cons = "%s %s" % (name, entry)
        if entry in ATTR:
            o = it.getattr(base, ATTR[entry])
            is_a(ck, it, "components", cons, o, roles[0])
            if entry == "Converter" and len(roles) > 1:
                n = re.search(r"(\d+)\s*x", text)
                want = roles[1:] * (int(n.group(1)) if n and len(roles) == 2 else 1)
                subs = list(it.iterate(it.getattr(o, "_sub_converters")))
                ck.require("components", cons + " parts", len(subs) == len(want), "%d parts, documented: %s" % (len(subs), want))
                for k, (x, y) in enumerate(zip(subs, want)):
                    is_a(ck, it, "components", "%s part %d" % (cons, k + 1), x, y)
        elif entry == "Reference Generator":
            for x in sub_generators(it, g):
                is_a(ck, it, "components", cons, x, roles[0])
            want = quoted(text)
            ck.require("quantities", cons, sorted(it.iterate(it.getattr(g, "reference_names"))) == sorted(want), "references of %s, documented: %s" % (it.iterate(it.getattr(g, "reference_names")), want))
        elif entry == "Reward Function":
            is_a(ck, it, "components", cons, r, roles[0])
            want = {k: eval_number(v) for k, v in re.findall(r"'(\w+)'\s*=\s*([\d./]+)", text)}
            got = {n: x for n, x in zip(it.iterate(it.getattr(ps, "state_names")), norm(it.getattr(r, "_reward_weights"), it)) if x != 0}
            ck.require("quantities", cons, set(got) == set(want) and all(abs(got[n] - want[n]) < 1e-9 for n in want), "weights %s, documented: %s" % (got, want))
        elif entry == "Visualization":
            vis = list(it.iterate(it.getattr(e, "visualizations")))
            for x in vis:
                is_a(ck, it, "components", cons, x, roles[0])
            ck.require("components", cons + " present", len(vis) > 0, "no visualization")
        elif entry == "Constraints":
            constraints(ck, it, e, ps, cons, text)
    known = set(str(x) for x in it.iterate(it.getattr(e, "state_names")))
    want = quoted(doc.get("State Variables", ""))
    ck.require("names", name + " state variables", len(want) > 2 and set(want) <= known, "documented states %s do not exist" % sorted(set(want) - known))
    for title in doc:
        if title.startswith("Reference") and title.endswith("ables"):
            got, want = [str(x) for x in it.iterate(it.getattr(e, "reference_names"))], quoted(doc[title])
            ck.require("names", name + " references", got == want, "references are %s, documented: %s" % (got, want))
    tau = re.search(r"tau\s*=\s*([\d.e-]+)", doc.get("Control Cycle Time", ""))
    if tau:
        t = float(tau.group(1))
        conv = it.getattr(base, "converter")
        for o, what in ((ps, "physical system"), (base, "system"), (conv, "converter")):
            v = norm(it.getattr(o, "tau" if o is not conv else "_tau"), it)
            ck.require("cycle", "%s %s" % (name, what), abs(v - t) < 1e-12, "cycle of %s s, documented: %s s" % (v, t))


def eval_number(text):
    a, _, b = text.partition("/")
    return float(a) / float(b or 1)


def constraints(ck, it, e, ps, cons, text):
    names = list(it.iterate(it.getattr(ps, "state_names")))
    want = {}
    parts = re.split(r"(?=:py:class:)", text)
    for p in parts:
        role = ROLE.search(p)
        if role:
            want.setdefault(role.group(1).rsplit(".", 1)[-1], set()).update(quoted(p[role.end():]))
    got = {}
    for x in it.iterate(it.getattr(it.getattr(e, "constraint_monitor"), "constraints")):
        x = it.res(x)
        got.setdefault(x.cls.name, set()).update(observed(it, x, names))
    ck.require("quantities", cons, got == want, "constraints %s, documented: %s" % (got, want))


def observed(it, x, names):
    for a in ("_observed_state_names", "_observed_states", "_states"):
        try:
            v = it.getattr(x, a)
        except AbsRaise:
            continue
        v = norm(v, it)
        if v and all(isinstance(q, str) for q in v):
            return set(v)
        if a == "_observed_states":
            return {n for n, q in zip(names, v) if q}
    return {"?"}


UNIT = {"m": 1e-3, "u": 1e-6, "k": 1e3}


def table(doc):
    """Documented default motor parameters {name: value in SI units}."""
    t = re.search(r"Motor Parameter\s+Unit.*?\n\s*=[ =]+\n(.*?)\n\s*=[ =]+\n", doc + "\n", re.S)
    out = {}
    for line in t.group(1).splitlines() if t else ():
        p = line.split()
        try:
            v = float(p[2])
        except (IndexError, ValueError):
            continue
        out[p[0]] = v * (UNIT.get(p[1][0], 1.0) if p[1][1:] in ("H", "Ohm", "Wb") else 1.0)
    return out


def motors(ck, it):
    base = it.find_class("ElectricMotor")
    n = 0
    for c in it.all_classes("gym_electric_motor.physical_systems.electric_motors"):
        want = table(docstring(c)) if c.issub(base) else {}
        if not want:
            continue
        with ck.guard("parameters", c.name):
            try:
                o = it.call(c, [], {})
            except AbsRaise:
                continue  # an abstract base class
            got = {k: float(norm(v, it)) for k, v in it.res(it.getattr(o, "motor_parameter")).items()}
            n += 1
            for k, v in sorted(want.items()):
                ck.require("parameters", "%s %s" % (c.name, k), k in got and abs(got[k] - v) <= 1e-9 * abs(v), "%s by default, documented: %s" % (got.get(k), v))
    ck.require("parameters", "documented motors", n >= 8, "%d motors with a table of parameters" % n)
