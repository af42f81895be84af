"""An episode does not depend on what was simulated before it."""
from .. import terms as tm
from ..corpus import *
from ..rig import S, m


def dirt(tier):
    """What may have happened before: (steps, variant of the actions, whether resets lie between)."""
    out = [((1,), 1), ((1,), 0), ((2,), 0), ((3, 2), 2), ((0, 5), 1)]
    if tier == "thorough":
        out += [((4,), 0), ((6,), 2), ((1, 1, 1), 0), ((9, 7), 1), ((12,), 2), ((2, 0, 3), 1)]
    return out


def compare(ck, rule, cons, ref, got):
    if [a for a, _ in ref.out] != [b for b, _ in got.out]:
        ck.violation(rule, cons, "other outputs: %s" % ([b for b, _ in got.out],))
        return
    for (what, va), (_, vb) in zip(ref.out, got.out):
        if same_terms(va, vb):
            ck.ok(rule, "%s %s" % (cons, what))
        else:
            ck.eq(rule, "%s %s" % (cons, what), vb, va, "differs from the same episode of a fresh environment")


def same_terms(a, b):
    x, y = list(flat(a)), list(flat(b))
    return len(x) == len(y) and all(p is q or (type(p) is type(q) and not isinstance(p, tm.T) and p == q) for p, q in zip(x, y))


def run(ck):
    ck.rule("seeded-reset", "after reset(seed=s) every output of the episode equals that of a fresh environment, whatever was simulated before")
    ck.rule("plain-reset", "the outputs of the second episode after seeding do not depend on the length and the actions of the first")
    w = World(ck)
    seed, other = S("seed", "nat"), S("other seed", "nat")
    n = 5 if ck.tier == "quick" else 9
    for en in entries(w):
        with ck.guard("seeded-reset", en.label):
            e = en.make(w)
            ref = play(w, e, n, seed)
            ref2 = play(w, e, n)
            for j, (lens, var) in enumerate(dirt(ck.tier)):
                for reuse in (True, False) if j == 0 else (True,):
                    if not reuse:
                        e = en.make(w)
                    for i, L in enumerate(lens):
                        play(w, e, L, other if i == 0 else None, tag="h%d" % j, variant=var)
                    compare(ck, "seeded-reset", "%s after %s steps" % (en.label, "+".join(map(str, lens))), ref, play(w, e, n, seed))
                    # same seed, another first episode
                play(w, e, lens[0], seed, tag="g%d" % j, variant=var)
                compare(ck, "plain-reset", "%s after a first episode of %d steps" % (en.label, lens[0]), ref2, play(w, e, n))
    ck.min_decided = 8000
