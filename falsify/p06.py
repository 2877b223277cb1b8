"""LCM returns exactly the closed frequent itemsets, each once, with its support and transactions"""
import os, tempfile
import pandas as pd
from common import *
from itemdata import *
from lcmref import *
from skmine.itemsets.lcm import LCM, LCMMax

CLS, REF = LCM, closed


def exhaustive(tier):
    for D in small_D(3, 3):
        for s in (1, 2):
            yield {"D": D, "ty": "int", "supp": s, "rel": False, "maxlen": -1, "mode": "list", "E": None}


def random_case(rng, tier):
    D = rand_D(rng, 12 if tier == "quick" else 20, 8, big=0.03)
    if not D[-1]:
        D.append([0])
    rel = rng.random() < 0.3
    n = len(D)
    s = rng.randint(1, max(1, n // 2 + 1))
    if rel:
        s = min(1.0, (s - 0.37) / n) if rng.random() < 0.8 else round(rng.uniform(0.01, 1), 3)
        if abs(s * n - round(s * n)) < 1e-6:
            rel, s = False, max(1, int(s * n))
    return {"D": D, "ty": rng.choice(["int", "str", "word"]), "supp": s, "rel": rel,
            "maxlen": rng.choice([-1, -1, 1, 2, 3]), "mode": rng.choice(["list", "list", "series"]),
            "E": rand_D(rng, 6, 5, empties=False) if rng.random() < 0.2 else None}


def nontrivial(c):
    return len(c["D"]) > 1 and max(map(len, c["D"])) > 1


def check(c):
    D = label(c["D"], c["ty"])
    if not D or not any(D):
        return
    X = pd.Series(D) if c["mode"] == "series" else D
    m = CLS(min_supp=c["supp"])
    if c["E"]:
        m.fit(label(c["E"], c["ty"]))
    m.fit(X)
    thr = c["supp"] * len(D) if c["rel"] else c["supp"]
    ref = REF(D, thr)
    ref = {k: v for k, v in ref.items() if c["maxlen"] == -1 or len(k) <= c["maxlen"]}
    df = m.transform(X, return_tids=True, max_length=c["maxlen"])
    expect(list(df.columns) == ["itemset", "support", "tids"], "columns {}", list(df.columns))
    got = [(frozenset(i), int(s), frozenset(int(t) for t in b), list(i)) for i, s, b in
           zip(df["itemset"], df["support"], df["tids"])]
    keys = [g[0] for g in got]
    expect(len(set(keys)) == len(keys), "itemset returned twice: {}", sorted(map(sorted, keys)))
    expect(set(keys) == set(ref), "missing {}, spurious {}", [sorted(x) for x in set(ref) - set(keys)],
           [sorted(x) for x in set(keys) - set(ref)])
    for k, s, t, raw in got:
        expect(s == len(ref[k]), "support of {} is {} instead of {}", sorted(k), s, len(ref[k]))
        expect(t == ref[k], "transactions of {} are {} instead of {}", sorted(k), sorted(t), sorted(ref[k]))
        expect(raw == sorted(k), "itemset not in order or repeated item: {}", raw)
    d2 = m.transform(X, max_length=c["maxlen"], lexicographic_order=False)
    expect(list(d2.columns) == ["itemset", "support"], "columns {}", list(d2.columns))
    expect(sorted((sorted(i), int(s)) for i, s in zip(d2["itemset"], d2["support"])) ==
           sorted((sorted(k), len(v)) for k, v in ref.items()), "without tids the answer differs")
    fd, path = tempfile.mkstemp()
    os.close(fd)
    for tids in (False, True):
        r = m.transform(X, max_length=c["maxlen"], out=path, return_tids=tids)
        expect(r is None, "transform(out=...) returns a value")
        lines = open(path).read().split("\n")
        want = []
        for k, v in ref.items():
            want.append(("(%d) %s" % (len(v), " ".join(map(str, sorted(k)))),) +
                        ((" ".join(map(str, sorted(v))),) if tids else ()))
        step = 2 if tids else 1
        lines = lines[:-1]
        chunks = [tuple(lines[i:i + step]) for i in range(0, len(lines), step)]
        expect(sorted(chunks) == sorted(want), "file output {} differs from the itemsets {}", chunks, want)
    os.unlink(path)
