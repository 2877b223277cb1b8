"""independent reading of what a SLIM code table must be"""
import math
from common import *


def codetable(s):
    """[(frozenset, set of tids)] in the order the table is read, through the public view only"""
    df = s.transform([], singletons=True, return_tids=True, drop_null_usage=False)
    return [(frozenset(i), frozenset(int(x) for x in t)) for i, t in zip(df["itemset"], df["tids"])]


def occurrences(D, items=()):
    occ = {}
    for t, tr in enumerate(D):
        for x in set(tr):
            occ.setdefault(x, set()).add(t)
    for x in items or ():
        occ.setdefault(x, set())
    return occ


def greedy(order, D):
    """for each transaction the itemsets used, taken in order, on what is left of it"""
    res = []
    for tr in D:
        left, used = set(tr), []
        for X in order:
            if X <= left:
                used.append(X)
                left = left - X
        res.append((used, left))
    return res


def check_exact_cover(ct, D, items=()):
    occ = occurrences(D, items)
    keys = [X for X, _ in ct]
    expect(len(set(keys)) == len(keys), "an itemset appears twice in the code table: {}", keys)
    seen = {}
    for X, tids in ct:
        expect(len(X) > 0, "empty itemset in the code table")
        for x in X:
            expect(x in occ, "itemset {} holds an item that is not in the data", set(X))
            for t in tids:
                expect(t in occ[x], "itemset {} is used for transaction {} which lacks {}", set(X), t, x)
                expect((x, t) not in seen, "item {} of transaction {} is covered twice: {} and {}", x, t,
                       set(seen.get((x, t), ())), set(X))
                seen[(x, t)] = X
    for x, ts in occ.items():
        expect(frozenset([x]) in set(keys), "singleton {} is missing from the code table", x)
        for t in ts:
            expect((x, t) in seen, "item {} of transaction {} is not covered", x, t)


def sizes(ct, D):
    """(data size, model size) recomputed from the definition"""
    occ = occurrences(D)
    tot = sum(len(v) for v in occ.values())
    st = {x: -math.log2(len(v) / tot) for x, v in occ.items()}
    used = [(X, len(t)) for X, t in ct if t]
    n = sum(u for _, u in used)
    data = sum(-u * math.log2(u / n) for _, u in used)
    model = sum(-math.log2(u / n) + sum(st[x] for x in X) for X, u in used)
    return data, model


def standard_sizes(D):
    occ = occurrences(D)
    return sizes([(frozenset([x]), v) for x, v in occ.items()], D)
