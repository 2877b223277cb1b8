"""SlimClassifier predicts the class whose table gives the shortest code"""
import math
import numpy as np
import pandas as pd
from common import *
from itemdata import *
from slimref import *
from skmine.itemsets import SLIM
from skmine.itemsets.slim_classifier import SlimClassifier


def random_case(rng, tier):
    k = rng.randint(2, 3)
    if rng.random() < 0.06:
        m = rng.randint(90, 150)      # long transactions to classify: very long codes
        D, y = [], []
        for cl in range(k):
            for x in range(m):
                for _ in range(rng.choice([1, 1, 1, 4])):
                    D.append([x])
                    y.append(cl)
        N = [list(range(m)), rng.sample(range(m), m - 3), rng.sample(range(m), m // 2)]
        return {"D": D, "y": y, "N": N, "lab": "int", "pruning": False, "ty": "word", "giveitems": True, "big": True}
    D = rand_D(rng, 14, 7, empties=False, big=0.03)
    while len(D) < k + 1:
        D.append([0, 1])
    y = [rng.randrange(k) for _ in D]
    for i in range(k):
        y[i] = i
    m = max([x for t in D for x in t]) + 1
    N = [t for t in rand_D(rng, 8, m + 2) if t]
    return {"D": D, "y": y, "N": N, "lab": rng.choice(["int", "str", "mixed", "bool", "npfloat", "series"]), "pruning": rng.random() < 0.5,
            "ty": rng.choice(["int", "str", "word"]), "giveitems": rng.random() < 0.7, "big": False,
            "pre": rng.random() < 0.25}


def nontrivial(c):
    return len(set(c["y"])) > 1


def check(c):
    D, N = label(c["D"], c["ty"]), label(c["N"], c["ty"])
    if len(c["y"]) != len(D) or not N or not all(D) or not D:
        return
    if c["lab"] == "mixed":         # 1 and 1.0 are the same class
        y = [float(v) if i % 3 == 1 else v for i, v in enumerate(c["y"])]
    elif c["lab"] == "bool":
        y = [v > 0 for v in c["y"]]
    elif c["lab"] == "npfloat":
        y = np.array(c["y"], dtype=float) / 2
    elif c["lab"] == "series":
        y = pd.Series([3 - v for v in c["y"]], index=range(7, 7 + len(D)))
    else:
        y = [v if c["lab"] == "int" else "class%d" % (9 - v) for v in c["y"]]
    items = set(x for t in D for x in t) if c["giveitems"] else None
    clf = SlimClassifier(items=items, pruning=c["pruning"])
    if c.get("pre"):        # fitted and used before, with more classes
        clf.fit(list(reversed(D)), ["zz%d" % (i % 4) for i in range(len(D))])
        clf.predict(N)
    clf.fit(D, y)
    classes = sorted(set(list(y)))
    expect(list(clf.classes_) == classes, "classes_ is {}", list(clf.classes_))
    pred = list(clf.predict(N))
    expect(len(pred) == len(N), "predict() gives {} labels for {} transactions", len(pred), len(N))
    lens = []
    for k in classes:
        Dk = [t for t, v in zip(D, y) if v == k]
        s = SLIM(items=items, pruning=c["pruning"]).fit(Dk)
        lens.append([float(v) for v in s.get_code_length(N)])
    for i, t in enumerate(N):
        best = min(l[i] for l in lens)
        got = lens[classes.index(pred[i])][i]
        expect(got <= best + 1e-4 * max(1, abs(best)) if best < math.inf else True,
               "transaction {}: predicted {} with code length {}, another class has {}", t, pred[i], got, best)
