"""Check driver: obligations, verdicts, evidence, known findings."""
import hashlib
import importlib
import json
import os
import sys
import time
import traceback
import warnings

warnings.filterwarnings("ignore")
sys.setrecursionlimit(20000)

import numpy as np

from . import terms as tm
from .terms import T
from .interp import Interp, arr
from .values import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(os.environ.get("GEM_REPO", "/repo"), "src")


class Anchor(Exception):
    """A public construct the property is anchored at does not exist any more."""


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.obs = []  # (status, rule, construct, detail)
        self.notes = []
        self.funcs = {}
        self.sites = set()
        self.events = 0
        self.stmts = 0
        self.degraded = {}
        self.min_decided = 1
        self.rules = {}
        self.selftests = 0
        self.shown = 0
        self._its = []

    # ------------------------------------------------------------ interpreters
    def interp(self, *mods):
        it = Interp()
        for m in mods or ("gym_electric_motor",):
            try:
                it.load(m)
            except AbsRaise as e:
                self.violation("package-import", m, "importing %s raises %r" % (m, e.exc))
        self._its.append(it)
        return it

    def rule(self, name, text):
        self.rules[name] = text

    def cls(self, it, name):
        try:
            return it.find_class(name)
        except KeyError:
            raise Anchor("class %s" % name)

    def method(self, it, cls, name):
        v, owner = cls.lookup(name)
        if v is None:
            raise Anchor("%s.%s" % (cls.name, name))
        return v

    # ------------------------------------------------------------ verdicts
    def ok(self, rule, construct, detail=""):
        self.obs.append(("ok", rule, construct, detail))

    def violation(self, rule, construct, detail=""):
        self.obs.append(("violation", rule, construct, detail))

    def undecided(self, rule, construct, detail=""):
        self.obs.append(("undecided", rule, construct, detail))

    def require(self, rule, construct, cond, detail=""):
        if cond is None:
            self.undecided(rule, construct, detail)
        elif cond:
            self.ok(rule, construct)
        else:
            self.violation(rule, construct, detail)
        return cond

    def eq(self, rule, construct, got, want, detail="", assume=None, it=None, tol=1e-7):
        """Obligation: the two (arrays of) terms denote the same function of their symbols."""
        try:
            st, why = same(got, want, assume, it, tol, self.seed, 40 if self.tier == "quick" else 160)
        except (Unsupported, RecursionError) as e:
            st, why = "undecided", "%s" % e
        if st == "equal":
            self.ok(rule, construct)
        elif st == "differ":
            self.violation(rule, construct, "%s: %s" % (detail, why) if detail else why)
        else:
            self.undecided(rule, construct, "%s %s" % (detail, why))
        return st == "equal"

    def holds(self, rule, construct, cond, detail="", assume=None):
        """Obligation: the condition term is true under the assumption, for all values of its symbols."""
        if isinstance(cond, (bool, np.bool_)):
            return self.require(rule, construct, bool(cond), detail)
        st, why = tm.implied(cond, assume=assume, n=60 if self.tier == "quick" else 300, seed=self.seed)
        if st == "equal":
            self.ok(rule, construct)
            return True
        if st == "differ":
            self.violation(rule, construct, "%s: fails at %s" % (detail, short((why or {}).get("point"), 400)))
            return False
        self.undecided(rule, construct, "%s %s" % (detail, why))
        return None

    def within(self, rule, construct, value, lo, hi, detail="values", exact=False, eps=1e-9):
        """Obligation: every value of the term lies in [lo, hi] (exact: and reaches both ends).

        Discharged by the interval domain; a reported violation has a sampled witness, anything between is undecided."""
        if isinstance(value, (U, Phi)):
            self.undecided(rule, construct, "not analysable: %r" % (value,))
            return None
        b = tm.interval(value)
        inside = lo - eps <= b[0] and b[1] <= hi + eps
        tight = b[0] <= lo + eps and hi - eps <= b[1]
        if inside and (tight or not exact):
            self.ok(rule, construct)
            return True
        h = tm.hull(value, 200 if self.tier == "quick" else 1000)
        text = "%s range over [%g, %g], allowed is [%g, %g]"
        if exact and inside:  # the values cannot reach the ends
            self.violation(rule, construct, text % (detail, b[0], b[1], lo, hi))
            return False
        if h is not None and (h[0] < lo - eps or h[1] > hi + eps):
            self.violation(rule, construct, text % (detail, h[0], h[1], lo, hi))
            return False
        if h is not None and exact and abs(h[0] - lo) <= eps and abs(h[1] - hi) <= eps:
            self.ok(rule, construct)
            return True
        self.undecided(rule, construct, "%s: interval [%g, %g], sampled %s, allowed [%g, %g]" % (detail, b[0], b[1], h, lo, hi))
        return None

    def guard(self, rule, construct, must_return=True):
        return _Guard(self, rule, construct, must_return)

    def absorb(self):
        for it in self._its:
            for k, n in it.functions.items():
                q = k if isinstance(k, str) else getattr(k, "where", str(k))
                if q.startswith("spec:"):
                    continue
                self.funcs[q] = self.funcs.get(q, 0) + n
            self.sites |= it.call_sites
            self.stmts += it.stmts
            self.events += len(it.events)
            for d in it.degraded:
                self.degraded[d] = self.degraded.get(d, 0) + 1
        self._its = []

    # ------------------------------------------------------------ finish
    def finish(self, t0, error=None):
        self.absorb()
        known = load_known(self.pid)
        viol = [o for o in self.obs if o[0] == "violation"]
        und = [o for o in self.obs if o[0] == "undecided"]
        okc = [o for o in self.obs if o[0] == "ok"]
        seen, listed, new = set(), [], []
        for o in viol:
            key = (o[1], o[2])
            if key in seen:
                continue
            seen.add(key)
            (listed if key in known else new).append(o)
        cov = {
            "explanation": "static analysis of the current sources: abstract interpretation into hash-consed value terms "
            "plus effect/typestate rules; an obligation is discharged when the analysed construct satisfies the rule",
            "rules": self.rules,
            "functions_analysed": len(self.funcs),
            "functions": sorted(self.funcs)[:400],
            "call_sites_analysed": len(self.sites),
            "abstract_statements": self.stmts,
            "effect_events": self.events,
            "obligations": len(self.obs),
            "discharged": len(okc),
            "violated": len(new),
            "known_findings": len(listed),
            "undecided": len(und),
            "undecided_detail": [list(o[1:]) for o in und[:40]],
            "by_rule": by_rule(self.obs),
            "constructs": sorted({o[2] for o in self.obs})[:300],
            "analysis_approximations": dict(list(self.degraded.items())[:30]),
            "selftests": self.selftests,
            "notes": self.notes,
        }
        ev = {
            "property": self.pid,
            "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
            "seed": self.seed,
            "level": "other",
            "coverage": cov,
            "wall_s": round(time.time() - t0, 3),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        rp = os.path.join(VERIF, "evidence", self.pid + ".violations.json")
        if new:
            with open(rp, "w") as f:
                json.dump([dict(rule=o[1], construct=o[2], detail=str(o[3])[:2000]) for o in new], f, indent=1)
        elif os.path.exists(rp):
            os.remove(rp)
        for o in listed:
            print("KNOWN-FINDING: property=%s rule=%s construct=%s %s" % (self.pid, o[1], o[2], known[(o[1], o[2])]))
        for o in new:
            print("  %s | %s | %s" % (o[1], o[2], str(o[3])[:600]))
        print("%s: %d obligations, %d discharged, %d undecided, %d known, %d violated; %d functions, %.1f s" % (
            self.pid, len(self.obs), len(okc), len(und), len(listed), len(new), len(self.funcs), time.time() - t0))
        if os.environ.get("GEM_VERBOSE"):
            for o in und:
                print("  undecided %s | %s | %s" % (o[1], o[2], str(o[3])[:400]))
            for d, n in self.degraded.items():
                print("  approx x%d %s" % (n, d))
        if new:
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if error:
            print("ERROR property=%s %s" % (self.pid, error))
            return 2
        if len(okc) + len(listed) < self.min_decided:
            print("ERROR property=%s only %d of at least %d obligations could be decided" % (self.pid, len(okc), self.min_decided))
            return 2
        return 0


class _Guard:
    def __init__(self, ck, rule, construct, must_return):
        self.ck, self.rule, self.construct, self.must_return = ck, rule, construct, must_return

    def __enter__(self):
        return self

    def __exit__(self, et, e, tb):
        if et is None:
            return False
        if issubclass(et, AbsRaise):
            if self.must_return:
                self.ck.violation(self.rule, self.construct, "raises %s at %s" % (exc_text(e.exc), e.where))
            else:
                self.ck.undecided(self.rule, self.construct, "raises %s at %s" % (exc_text(e.exc), e.where))
            return True
        if issubclass(et, (Anchor, KeyboardInterrupt, SystemExit)):
            return False
        if os.environ.get("GEM_VERBOSE") and self.ck.shown < 2:
            self.ck.shown += 1
            traceback.print_exception(et, e, tb)
        self.ck.undecided(self.rule, self.construct, "analysis: %s %s" % (et.__name__, e))
        return True


def exc_text(e):
    if isinstance(e, Obj):
        return "%s%s" % (e.cls.name, e.attrs.get("args", ""))
    return str(e)


def by_rule(obs):
    r = {}
    for o in obs:
        d = r.setdefault(o[1], {})
        d[o[0]] = d.get(o[0], 0) + 1
    return r


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    out = {}
    if not os.path.exists(p):
        return out
    for line in open(p):
        line = line.strip()
        if not line.startswith("finding:"):
            continue
        head, _, what = line[len("finding:"):].partition("|")
        kv = {k.strip(): v.strip() for k, v in (x.split("=", 1) for x in head.split(";") if "=" in x)}
        if kv.get("property") == pid:
            out[(kv["rule"], kv["construct"])] = what.strip()
    return out


# ---------------------------------------------------------------- term comparison
def norm(v, it=None):
    """Nested python structure -> nested lists of scalars/terms (arrays become lists)."""
    if it is not None:
        v = it.res(v)
    if isinstance(v, np.ndarray):
        if v.ndim == 0:
            return norm(v[()], it)
        return [norm(x, it) for x in v]
    if isinstance(v, (list, tuple)):
        return [norm(x, it) for x in v]
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, U):
        return v.term
    if isinstance(v, Phi):
        a, b = norm(v.a, it), norm(v.b, it)
        return merge_norm(v.c, a, b)
    return v


def merge_norm(c, a, b):
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return [merge_norm(c, x, y) for x, y in zip(a, b)]
    if tm.is_scalar(a) and tm.is_scalar(b):
        return tm.ite(c, a, b)
    return Phi(c, a, b)


def same(got, want, assume=None, it=None, tol=1e-7, seed=1, n=40):
    g, w = norm(got, it), norm(want, it)
    return _same(g, w, "", assume, tol, seed, n)


def _same(g, w, path, assume, tol, seed, n):
    if isinstance(g, list) and not isinstance(w, list) and len(g) == 1:
        g = g[0]
    if isinstance(w, list) and not isinstance(g, list) and len(w) == 1:
        w = w[0]
    if isinstance(g, list) or isinstance(w, list):
        if not (isinstance(g, list) and isinstance(w, list)):
            if isinstance(g, Phi) or isinstance(w, Phi):
                return "undecided", "gated structure at %s" % path
            return "differ", "shape at [%s]: %s vs %s" % (path, short(g), short(w))
        if len(g) != len(w):
            return "differ", "length at [%s]: %d vs %d" % (path, len(g), len(w))
        und = None
        for i, (a, b) in enumerate(zip(g, w)):
            s, why = _same(a, b, "%s%s%d" % (path, "," if path else "", i), assume, tol, seed, n)
            if s == "differ":
                return s, why
            if s == "undecided":
                und = why
        return ("undecided", und) if und else ("equal", None)
    if g is w:
        return "equal", None
    if isinstance(g, (str, type(None), dict, Obj, Cls, Mock)) or isinstance(w, (str, type(None), dict, Obj, Cls, Mock)):
        if isinstance(g, U) or isinstance(w, U):
            return "undecided", "unknown at %s" % path
        return ("equal", None) if g == w else ("differ", "at [%s]: %s instead of %s" % (path, short(g), short(w)))
    if isinstance(g, Phi) or isinstance(w, Phi):
        return "undecided", "gated value"
    s, wit = tm.compare(g, w, assume=assume, tol=tol, seed=seed, n=n)
    if s == "equal":
        return s, None
    return s, "at [%s]: %s instead of %s%s" % (path, short(g), short(w), " (e.g. %s)" % short(wit, 300) if wit else "")


def short(x, n=220):
    s = tm.show(x) if isinstance(x, T) else repr(x)
    return s if len(s) <= n else s[: n - 3] + "..."


def main(pid):
    t0 = time.time()
    ck = Check(pid)
    err = None
    try:
        mod = importlib.import_module("gemcheck.checks.%s" % pid)
        mod.run(ck)
    except Anchor as e:
        err = "anchor lost: %s" % e
    except AbsRaise as e:
        err = "analysis stopped: the analysed code raises %s at %s" % (exc_text(e.exc), e.where)
    except Exception as e:
        err = "analysis failed: %s %s" % (type(e).__name__, e)
        traceback.print_exc()
    return ck.finish(t0, err)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
