"""Episode randomness is a function of the seed and the episode number."""
from .. import terms as tm
from ..check import short
from ..corpus import *
from ..extlib import keystr
from ..rig import S, m
from .S01 import draws_in


def show_draw(d):
    return "%s #%s of generator %s" % (d[2], short(d[1]), short(d[0], 160))


def histories(tier):
    """Lengths of consecutive episodes; episodes compared have the same number and, for a full comparison, the same length."""
    base = (1, 3, 2, 2)
    others = [(4, 0, 2, 2), (2, 1, 2, 0)]
    if tier == "thorough":
        others += [(0, 0, 2, 2), (7, 5, 2, 2), (3, 11, 2, 2), (12, 2, 2, 2)]
    return base, others


def run(ck):
    ck.rule("same-draws", "the draws of the n-th episode come from the same generators at the same positions whatever the lengths and actions of earlier episodes")
    ck.rule("same-values", "the random numbers in the outputs of the n-th episode's reset are the same whatever the lengths of earlier episodes")
    ck.rule("fresh-stream", "no episode draws from a generator that an earlier episode used")
    ck.rule("drawn-in-episode", "the random numbers in an episode's outputs were drawn in that episode, after its reset began")
    w = World(ck)
    seed = S("seed", "nat")
    base, others = histories(ck.tier)
    for en in entries(w):
        with ck.guard("same-draws", en.label):
            e = en.make(w)
            runs = []
            for j, lens in enumerate((base,) + tuple(others)):
                eps = []
                for n, L in enumerate(lens):
                    # earlier actions differ between the histories, those of a compared episode do not
                    eps.append(play(w, e, L, seed if n == 0 else None, tag="a" if n >= 2 else "h%d" % j, variant=0 if n >= 2 else j))
                runs.append(eps)
            ref = runs[0]
            for j, eps in enumerate(runs[1:]):
                for n, (a, b) in enumerate(zip(ref, eps)):
                    k = min(len(a.draws), len(b.draws))
                    diff = [(x, y) for x, y in zip(a.draws, b.draws) if x != y]
                    full = base[n] == others[j][n] and n >= 2
                    cons = "%s episode %d after lengths %s" % (en.label, n + 1, list(others[j][:n]))
                    if full and len(a.draws) != len(b.draws) and not diff:
                        ck.violation("same-draws", cons, "%d draws instead of %d" % (len(b.draws), len(a.draws)))
                    elif diff and n > 0:
                        ck.violation("same-draws", cons, "%s instead of %s" % (show_draw(diff[0][1]), show_draw(diff[0][0])))
                    elif n > 0:
                        ck.ok("same-draws", cons, "%d draws" % k)
                    for (wa, va), (wb, vb) in list(zip(a.out, b.out))[:2]:
                        da, db = set(draws_in(va)), set(draws_in(vb))
                        ck.require("same-values", "%s %s" % (cons, wa), da == db, "contains %s" % ", ".join(tm.show(t) for t in list(db - da)[:2]))
            seen, rep, mine = {}, [], []
            for n, ep in enumerate(ref):
                for key, cnt, meth in ep.draws:
                    if seen.setdefault(key, n) != n:
                        rep.append((n, seen[key], (key, cnt, meth)))
                ids = {keystr(k) for k, c, _ in ep.draws}
                for what, v in ep.out:
                    for t in draws_in(v):
                        if stream(t) not in ids:
                            mine.append((n, what, t))
            for n, o, d in rep[:3]:
                ck.violation("fresh-stream", en.label, "episode %d uses %s, which episode %d has used" % (n + 1, show_draw(d), o + 1))
            for n, what, t in mine[:3]:
                ck.violation("drawn-in-episode", "%s %s" % (en.label, what), "episode %d returns %s" % (n + 1, tm.show(t)))
            if not rep:
                ck.ok("fresh-stream", en.label)
            if not mine:
                ck.ok("drawn-in-episode", en.label)
    ck.min_decided = 1000


def stream(t):
    """The generator key inside a random number's term."""
    for a in t.args:
        if isinstance(a, tuple) and a and a[0] == "ss":
            return a
    return None
