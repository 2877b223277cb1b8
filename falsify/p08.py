"""border algebra and emerging patterns"""
import itertools
import numpy as np
import pandas as pd
from common import *
from itemdata import *
from lcmref import maximal
from skmine.emerging import MBDLLBorder


def subsets(U):
    U = sorted(U)
    for k in range(len(U) + 1):
        for s in itertools.combinations(U, k):
            yield frozenset(s)


def exhaustive(tier):
    U = [0, 1, 2]
    subs = [list(s) for s in subsets(U)]
    for n in range(0, 3):
        for S in itertools.product(subs, repeat=n):
            yield {"kind": "diff", "U": U, "S": [list(s) for s in S]}
            yield {"kind": "filter", "S": [list(s) for s in S]}
            yield {"kind": "btp", "U": U, "S": [list(s) for s in S], "min": None}
            for m in (1, 2):
                yield {"kind": "btp", "U": U, "S": [list(s) for s in S], "min": m}
    for S in itertools.combinations(subs, 3):
        yield {"kind": "diff", "U": U, "S": [list(s) for s in S]}
        yield {"kind": "filter", "S": [list(s) for s in S]}


def rsets(rng, m, n):
    return [rng.sample(range(m), rng.randint(0, m)) for _ in range(n)]


def random_case(rng, tier):
    r = rng.random()
    m = rng.randint(2, 7)
    if r < 0.2:
        return {"kind": "filter", "S": rsets(rng, m, rng.randint(0, 9))}
    if r < 0.4:
        return {"kind": "diff", "U": rng.sample(range(m), rng.randint(1, m)), "S": rsets(rng, m, rng.randint(0, 5))}
    if r < 0.55:
        U = rng.sample(range(m), rng.randint(1, m))
        return {"kind": "btp", "U": U, "S": [rng.sample(U, rng.randint(0, len(U))) for _ in range(rng.randint(0, 4))],
                "min": rng.choice([None, 1, 2, 3])}
    if r < 0.7:
        return {"kind": "border", "A": rsets(rng, m, rng.randint(0, 4)), "B": rsets(rng, m, rng.randint(0, 4))}
    D = rand_D(rng, 14, 7, empties=False)
    if rng.random() < 0.15:
        D = [[i] for i in range(rng.randint(3, 6))] + D[:4]
    while len(D) < 2:
        D.append([0, 1])
    y = [rng.randrange(2) for _ in D]
    y[0], y[1] = 0, 1
    if D[2:3] == [[2]]:
        y = [0 if i < len(D) and t == [i] else 1 for i, t in enumerate(D)]
        y[-1] = 1
    return {"kind": "mine", "pre": rng.random() < 0.3, "D": D, "y": y, "supp": round(rng.uniform(0.05, 0.45), 3), "gr": rng.choice([1.5, 2, 3]),
            "min": rng.choice([1, 2, 3]), "ty": rng.choice(["int", "str"])}


def nontrivial(c):
    return c["kind"] == "mine" or len(c.get("S", c.get("A", []))) > 1


def inborder(left, right):
    """{X : some l <= X <= right}"""
    return {X for X in subsets(right) if any(frozenset(l) <= X for l in left)}


def check(c):
    k = c["kind"]
    if k == "filter":
        fmax, fmin = need("skmine.utils", "filter_maximal", "filter_minimal")
        S = [frozenset(s) for s in c["S"]]
        for f, want in ((fmax, [x for x in S if not any(x < y for y in S)]),
                        (fmin, [x for x in S if not any(y < x for y in S)])):
            got = [frozenset(x) for x in f(list(S))]
            expect(sorted(map(sorted, got)) == sorted(map(sorted, want)), "{} gives {} instead of {}", f.__name__,
                   [sorted(x) for x in got], [sorted(x) for x in want])
            got2 = [frozenset(x) for x in f([set(s) for s in S])]
            expect(sorted(map(sorted, got2)) == sorted(map(sorted, want)), "{} on sets gives {}", f.__name__,
                   [sorted(x) for x in got2])
    elif k == "diff":
        bd = need("skmine.emerging.mbdldorber", "border_diff")
        U, S = set(c["U"]), [set(s) for s in c["S"]]
        L, R = bd(set(U), [set(s) for s in S])
        expect(set(R) == U, "right border {} instead of {}", R, U)
        want = {X for X in subsets(U) if not any(X <= s for s in S)}
        got = inborder(L, R)
        expect(got == want, "[{}, {}] misses {} and adds {} w.r.t. the difference", [sorted(l) for l in L], sorted(R),
               [sorted(x) for x in want - got], [sorted(x) for x in got - want])
        LL = [frozenset(l) for l in L]
        expect(not any(a < b for a in LL for b in LL), "left border is not an antichain: {}", [sorted(l) for l in L])
    elif k == "btp":
        f = need("skmine.emerging.mbdldorber", "borders_to_patterns")
        U, left = set(c["U"]), [set(s) & set(c["U"]) for s in c["S"]]
        got = [tuple(x) for x in f(left, set(U), min_size=c["min"])]
        mn = c["min"] or min(map(len, left), default=1)
        want = {X for X in subsets(U) if X < U and any(frozenset(l) < X for l in left) and len(X) >= mn}
        expect(len(got) == len(set(map(frozenset, got))), "pattern listed twice: {}", got)
        expect(all(len(set(g)) == len(g) for g in got), "repeated item: {}", got)
        expect(set(map(frozenset, got)) == want, "patterns {} instead of {}", got, [sorted(x) for x in want])
        expect([len(g) for g in got] == sorted([len(g) for g in got], reverse=True), "bigger patterns must come first")
    elif k == "border":
        f = need("skmine.emerging.mbdldorber", "mbdllborder")
        A, B = [set(x) for x in c["A"]], [set(x) for x in c["B"]]
        bs = f([set(x) for x in A], [set(x) for x in B])
        got = set().union(*[inborder(L, R) for L, R in bs]) if bs else set()
        want = {X for b in B for X in subsets(b) if not any(X <= a for a in A)}
        expect(got == want, "borders cover {} instead of {}", [sorted(x) for x in got], [sorted(x) for x in want])
    else:
        D, y = [list(t) for t in label(c["D"], c["ty"])], np.array(c["y"])
        if len(y) != len(D) or len(set(c["y"])) != 2 or not all(D):
            return
        n1, n2 = sum(y == 0), sum(y == 1)
        t1, t2 = c["supp"] * n1, c["gr"] * c["supp"] * n2
        if c["gr"] * c["supp"] > 1 or min(abs(t - round(t)) for t in (t1, t2)) < 1e-6:
            return
        m = MBDLLBorder(min_growth_rate=c["gr"], min_supp=c["supp"])
        if c.get("pre"):        # fitted and used before
            m.fit(pd.Series(D), np.array(["q%d" % (i % 2) for i in range(len(D))]))
            m.discover(min_size=1)
        m.fit(pd.Series(D), y)
        D1 = [frozenset(t) for t, v in zip(D, y) if v == 0]
        D2 = [frozenset(t) for t, v in zip(D, y) if v == 1]
        max2 = maximal(D2, t2)
        pats = [tuple(p) for p in m.discover(min_size=c["min"])]
        sup = lambda X, T: sum(X <= t for t in T)
        for p in pats:
            X = frozenset(p)
            expect(len(X) == len(p) and len(X) >= c["min"], "ill-formed pattern {}", p)
            expect(sup(X, D2) >= t2, "pattern {} is not frequent in the second collection: {} < {}", p, sup(X, D2), t2)
            expect(sup(X, D1) < t1, "pattern {} is frequent in the first collection: {} >= {}", p, sup(X, D1), t1)
        # and every emerging pattern strictly inside a border is enumerated
        want = set()
        for R in max2:
            ok = {X for X in subsets(R) if (sup(X, D1) < t1 if X else not maximal(D1, t1))}
            for X in ok:
                if X < R and len(X) >= c["min"] and any(Y < X for Y in ok):
                    want.add(X)
        # strictly above a minimal emerging set of the same border
        expect(want == {frozenset(p) for p in pats}, "emerging patterns missing {} spurious {}",
               [sorted(x) for x in want - {frozenset(p) for p in pats}],
               [sorted(x) for x in {frozenset(p) for p in pats} - want])
