"""Differential test of the analysis engine: every snippet is interpreted abstractly with symbolic arguments, the resulting
terms are evaluated at sample points, and compared with what Python and numpy compute.  Reports unsupported and wrong ones.

usage: python3-vt tools/engine_test.py [substring]
"""
import os
import random
import sys
import traceback
import warnings

warnings.filterwarnings("ignore")
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
import numpy as np

from gemcheck import terms as tm
from gemcheck.check import norm
from gemcheck.interp import Interp
from gemcheck.values import *

HEAD = """
import numpy as np
import math, itertools, functools, operator, copy, collections, warnings
from functools import reduce, partial
from dataclasses import dataclass, field
from collections import namedtuple, OrderedDict, defaultdict, deque
from enum import Enum
from abc import ABC, abstractmethod
from typing import Optional, List
import contextlib
"""


def snippets():
    text = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine_snippets.py")).read()
    for part in text.split("\n#--")[1:]:
        name, _, body = part.partition("\n")
        yield name.strip(), body.rstrip()


def function(name, body):
    return HEAD + "\ndef snippet(a, b, c, d, A, M):\n" + "\n".join("    " + l for l in body.split("\n")) + "\n"


def flat(v):
    if isinstance(v, dict):
        return [[flat(k), flat(x)] for k, x in v.items()]
    if isinstance(v, np.ndarray):
        return flat(v.tolist())
    if isinstance(v, (list, tuple)):
        return [flat(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted(flat(x) for x in v)
    if isinstance(v, np.generic):
        return v.item()
    return v


def evaluated(v, env, rng, memo):
    if isinstance(v, dict):
        return [[evaluated(k, env, rng, memo), evaluated(x, env, rng, memo)] for k, x in v.items()]
    v = norm(v)
    if isinstance(v, list):
        return [evaluated(x, env, rng, memo) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted(evaluated(x, env, rng, memo) for x in v)
    if isinstance(v, Phi):
        return evaluated(v.a if tm.evaluate(v.c, env, rng, memo) else v.b, env, rng, memo)
    if isinstance(v, Cplx):
        return complex(tm.evaluate(v.re, env, rng, memo), tm.evaluate(v.im, env, rng, memo))
    if isinstance(v, tm.T):
        return tm.evaluate(v, env, rng, memo)
    return v


def leaves(v):
    v = norm(v)
    if isinstance(v, dict):
        v = list(v.values())
    if isinstance(v, (list, tuple)):
        return [s for x in v for s in leaves(x)]
    if isinstance(v, Phi):
        return leaves(v.a) + leaves(v.b) + leaves(v.c)
    if isinstance(v, Cplx):
        return leaves(v.re) + leaves(v.im)
    return list(tm.symbols(v)) if isinstance(v, tm.T) else []


def close(x, y):
    if isinstance(x, list) or isinstance(y, list):
        return isinstance(x, list) and isinstance(y, list) and len(x) == len(y) and all(close(p, q) for p, q in zip(x, y))
    if isinstance(x, (int, float, complex)) and isinstance(y, (int, float, complex)):
        return abs(x - y) <= 1e-7 * max(1, abs(x), abs(y)) or x == y
    return x == y


def main():
    pick = sys.argv[1] if len(sys.argv) > 1 else ""
    bad = total = 0
    for name, body in snippets():
        if pick and pick not in name + body:
            continue
        total += 1
        ns = {}
        try:
            exec(function(name, body), ns)
        except SyntaxError as e:
            print("SYNTAX", name, e)
            continue
        it = Interp()
        S = [tm.sym(n, "real") for n in "abcd"]
        AS = [tm.sym("A%d" % i, "real") for i in range(3)]
        MS = [[tm.sym("M%d%d" % (i, j), "real") for j in range(2)] for i in range(2)]
        try:
            it.ext.fns
            m = it.load_text("snip", function(name, body))
            A = np.empty(3, dtype=object); A[:] = AS
            M = np.empty((2, 2), dtype=object)
            for i in range(2):
                for j in range(2):
                    M[i, j] = MS[i][j]
            got = it.res(it.call(m.ns["snippet"], list(S) + [A, M], {}))
        except Exception as e:
            bad += 1
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            print("FAILS  %-34s %s: %s  (%s:%d)" % (name, type(e).__name__, str(getattr(e, "exc", e))[:90], tb.filename.split("/")[-1], tb.lineno))
            continue
        rng = random.Random(1)
        for k in range(12):
            vals = [rng.uniform(-3, 3) for _ in range(11)]
            env = dict(zip(S + AS + MS[0] + MS[1], vals))
            try:
                want = flat(ns["snippet"](*vals[:4], np.array(vals[4:7]), np.array(vals[7:11]).reshape(2, 2)))
            except Exception as e:
                print("REAL   %-34s %r" % (name, e))
                break
            try:
                have = flat(evaluated(got, dict(env), rng, {}))
            except Exception as e:
                bad += 1
                print("EVAL   %-34s %s %s of %s" % (name, type(e).__name__, str(e)[:60], str(got)[:100]))
                break
            if not close(have, want):
                bad += 1
                vague = [s for s in leaves(got) if s.dom in ("unknown", "havoc")]
                print("%s  %-34s have %s want %s" % ("VAGUE" if vague else "WRONG", name, str(vague[:2] or have)[:80], str(want)[:80]))
                break
    print("%d snippets, %d not analysed exactly" % (total, bad))


main()
