"""SLIM sizes: the stored sizes are those of the stored table, never worse than the standard code table,
fitting is a function of the data alone, and the table is the greedy cover in its own order"""
from common import *
from itemdata import *
from slimref import *
from skmine.itemsets import SLIM


def exhaustive(tier):
    for D in small_D(3, 3):
        for pr in (False, True):
            yield {"D": D, "E": [[0]], "ty": "str", "pruning": pr, "cand": []}


def random_case(rng, tier):
    D = rand_D(rng, 16 if tier == "quick" else 30, 8, empties=False, big=0.03)
    m = max([x for t in D for x in t]) + 1
    return {"D": D, "E": rand_D(rng, 8, 5), "ty": rng.choice(["int", "str", "word"]), "pruning": rng.random() < 0.6,
            "cand": rng.sample(range(m), rng.randint(2, min(m, 4))) if m > 1 and rng.random() < 0.5 else []}


def nontrivial(c):
    return len(c["D"]) > 1 and max(map(len, c["D"])) > 1


def consistent(s, D, what):
    ct = codetable(s)
    d, m = sizes(ct, D)
    expect(close(d, s.data_size_, 2e-5), "{}: data_size_ is {} but the table gives {}", what, s.data_size_, d)
    expect(close(m, s.model_size_, 2e-5), "{}: model_size_ is {} but the table gives {}", what, s.model_size_, m)
    order = [X for X, _ in ct]
    for t, (used, left) in enumerate(greedy(order, D)):
        got = [X for X, tids in ct if t in tids]
        expect(got == used, "{}: transaction {} is covered by {}, not greedily by {}", what, t,
               [set(x) for x in got], [set(x) for x in used])
    # standard cover order: cardinality then support, decreasing
    occ = occurrences(D)
    key = [(-len(X), -len(set.intersection(*[occ[x] for x in X]))) for X in order]
    expect(key == sorted(key), "{}: table not in standard cover order: {}", what, key)
    return ct, d + m


def check(c):
    if not all(c["D"]) or not c["D"]:
        return
    D = [set(t) for t in label(c["D"], c["ty"])]
    L = [sorted(t) for t in D]
    std = standard_sizes(D)
    s = SLIM(pruning=c["pruning"])
    s.prefit(L)
    expect(close(s.data_size_, std[0], 2e-5) and close(s.model_size_, std[1], 2e-5),
           "prefit sizes {} differ from the standard code table {}", (s.data_size_, s.model_size_), std)
    s.fit(L)
    ct, tot = consistent(s, D, "fit")
    expect(tot <= sum(std) * (1 + 2e-5), "total size {} exceeds that of the singletons {}", tot, sum(std))
    keep = [(X, len(t)) for X, t in ct if len(X) > 1]
    if c["pruning"]:
        expect(all(u > 0 for _, u in keep), "pruned table keeps unused itemsets {}", keep)
    # fitted state depends on the data only, not on what was fitted before
    E = label(c["E"], c["ty"])
    if any(E):
        r = SLIM(pruning=c["pruning"]).fit(E)
        r.fit(L)
        expect(codetable(r) == ct, "refitting after other data gives another table")
        expect(r.data_size_ == s.data_size_ and r.model_size_ == s.model_size_, "refit sizes differ")
    # the code table and sizes are unchanged by reading them
    s.cover(L), s.get_code_length(L), s.reconstruct()
    expect(codetable(s) == ct, "reading the model changed it")
    if c["cand"]:
        X = frozenset(label([c["cand"]], c["ty"])[0])
        if len(X) > 1 and X not in [Y for Y, _ in ct] and X <= set().union(*D):
            before = codetable(s)
            d, m, us = s.evaluate(X)
            expect(codetable(s) == before, "evaluate() changed the model")
            s.update(candidate=X)
            consistent(s, D, "update")
