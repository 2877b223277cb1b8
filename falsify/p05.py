"""SLIMVectorizer: features are the k most used itemsets that new data can contain, laid as a greedy disjoint cover"""
import numpy as np
from common import *
from itemdata import *
from slimref import greedy
from skmine.itemsets import SLIM
from skmine.feature_extraction import SLIMVectorizer


def random_case(rng, tier):
    D = rand_D(rng, 14, 7, empties=False, big=0.03)
    m = max([x for t in D for x in t]) + 1
    N = rand_D(rng, 8, m + 2)
    if rng.random() < 0.5:
        N = N + [list(t) for t in rng.sample(D, min(3, len(D)))]
    return {"D": D, "N": N, "ty": rng.choice(["int", "str", "word"]), "pruning": rng.random() < 0.3,
            "k": rng.choice([1, 2, 3, 5, 20]), "stop": rng.sample(range(m), rng.randint(1, m - 1))
            if m > 1 and rng.random() < 0.4 else None, "strategy": rng.choice(["codes", "one-hot"]),
            "pre": rand_D(rng, 10, 7, empties=False) if rng.random() < 0.3 else None}


def nontrivial(c):
    return len(c["D"]) > 1 and max(map(len, c["D"])) > 1 and len(c["N"]) > 1


def check(c):
    if not c["D"] or not any(c["D"]) or not c["N"]:
        return
    D, N = label(c["D"], c["ty"]), label(c["N"], c["ty"])
    stop = label([c["stop"]], c["ty"])[0] if c["stop"] is not None else None
    left = [[x for x in t if x not in (stop or [])] for t in D]
    if not any(left) or not left[-1]:
        return
    v = SLIMVectorizer(strategy=c["strategy"], k=c["k"], pruning=c["pruning"], stop_items=stop)
    P = label(c["pre"], c["ty"]) if c.get("pre") else []
    if P and all(set(t) - set(stop or []) for t in P):       # fitted and used before on other data
        v.fit(P)
        v.transform(P)
    v.fit(D)
    if P and c["k"] % 2:
        v.transform(P)
    ref = SLIM(pruning=c["pruning"]).fit([sorted(set(t)) for t in left])
    df = ref.transform([], drop_null_usage=False)
    table = {frozenset(i): int(u) for i, u in zip(df["itemset"], df["usage"])}
    out = v.transform(N)
    new = [set(t) - set(stop or []) for t in N]
    present = set().union(*new)
    adm = {X: u for X, u in table.items() if X <= present}
    cols = [frozenset(x) for x in out.columns]
    expect(len(out) == len(N), "{} rows for {} transactions", len(out), len(N))
    expect(len(set(cols)) == len(cols), "duplicate features")
    expect(all(X in adm for X in cols), "feature outside the code table, or that the data cannot contain: {}", cols)
    top = sorted(adm.values(), reverse=True)[:c["k"]]
    expect([adm[X] for X in cols] == top, "features have usages {} instead of {}", [adm[X] for X in cols], top)
    ref_rows = greedy(cols, new)
    tot = sum(adm.values())
    for i, (used, _) in enumerate(ref_rows):
        row = [float(x) for x in out.iloc[i].tolist()]
        for X, val in zip(cols, row):
            want = 0.0 if X not in used else (1.0 if c["strategy"] == "one-hot" else adm[X] / max(tot, 1))
            expect(close(val, want, 1e-5), "row {} feature {}: {} instead of {}", sorted(new[i]), set(X), val, want)
