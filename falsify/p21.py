"""synthetic data generators respect their parameters and their seed"""
import numpy as np
import pandas as pd
from common import *
from skmine.datasets import make_transactions, make_classification


def random_case(rng, tier):
    if rng.random() < 0.6:
        return {"k": "t", "n": rng.randint(1, 40), "m": rng.randint(2, 30),
                "d": rng.choice([0.05, 0.2, 0.5, 0.8, 0.95, 0.99, round(rng.uniform(0.01, 0.99), 3)]),
                "seed": rng.randint(0, 10 ** 6), "start": rng.choice([0, 0, 7, 100])}
    k = rng.randint(1, 4)
    w = None
    if rng.random() < 0.4:
        w = {1: [1.0], 2: [0.25, 0.75], 3: [0.5, 0.25, 0.25], 4: [0.25] * 4}[k]
    return {"k": "c", "n": rng.randint(8, 60), "m": rng.randint(3, 20), "c": k, "w": w,
            "sep": rng.choice([0.0, 0.2, 0.5, 1.0]), "seed": rng.randint(0, 10 ** 6), "shuffle": rng.random() < 0.7,
            "dens": [rng.choice([0.2, 0.5, 0.7]) for _ in range(k)] if rng.random() < 0.4 else None}


def exhaustive(tier):
    for d in (0.0, 1.0, -0.5, 1.5, 2, 0):
        yield {"k": "bad", "d": d}


def nontrivial(c):
    return True


def check(c):
    if c["k"] == "bad":
        expect(raises(ValueError, make_transactions, 5, 5, c["d"]) is not None, "density {} accepted", c["d"])
    elif c["k"] == "t":
        state = np.random.get_state()[1].tolist()
        a = make_transactions(n_transactions=c["n"], n_items=c["m"], density=c["d"], random_state=c["seed"],
                              item_start=c["start"])
        b = make_transactions(n_transactions=c["n"], n_items=c["m"], density=c["d"], random_state=c["seed"],
                              item_start=c["start"])
        A = [[int(x) for x in t] for t in a]
        expect(A == [[int(x) for x in t] for t in b], "same seed, other data")
        expect(np.random.get_state()[1].tolist() == state, "the global generator was used")
        expect(len(A) == c["n"], "{} transactions instead of {}", len(A), c["n"])
        for t in A:
            expect(len(set(t)) == len(t), "repeated item in {}", t)
            expect(all(c["start"] <= x < c["start"] + c["m"] for x in t), "item outside the range in {}", t)
        # sizes are binomial(2*density*n_items, 1/2): no transaction exceeds that range unless clipped to n_items
        cap = int(2 * c["d"] * c["m"] + 1e-9)
        expect(all(len(t) <= min(c["m"], max(cap, 0)) or cap > c["m"] for t in A), "transaction longer than {}", cap)
        if c["n"] >= 25 and cap <= c["m"] and cap >= 4:
            avg = sum(map(len, A)) / len(A)
            sd = (cap / 4) ** 0.5
            expect(abs(avg - cap / 2) <= 7 * sd / c["n"] ** 0.5, "average size {} far from {}", avg, cap / 2)
    else:
        kw = dict(n_samples=c["n"], n_items_per_class=c["m"], n_classes=c["c"], weights=c["w"], class_sep=c["sep"],
                  shuffle=c["shuffle"], random_state=c["seed"], densities=c["dens"])
        D, y = make_classification(**kw)
        D2, y2 = make_classification(**kw)
        f = lambda D, y: [(tuple(int(v) for v in t), int(l)) for t, l in zip(D, y)]
        expect(f(D, y) == f(D2, y2), "same seed, other data")
        expect(len(D) == len(y) and list(D.index) == list(y.index), "samples and labels are not aligned")
        w = c["w"] or [1 / c["c"]] * c["c"]
        pad = 0
        for k in range(c["c"]):
            n = sum(1 for _, l in f(D, y) if l == k)
            expect(n == int(w[k] * c["n"]), "class {} has {} samples instead of {}", k, n, int(w[k] * c["n"]))
            for t, l in f(D, y):
                if l == k:
                    expect(len(set(t)) == len(t) and all(pad <= x < pad + c["m"] for x in t),
                           "class {}: {} not in [{}, {})", k, t, pad, pad + c["m"])
            pad += int(c["m"] - (c["m"] * (1 - c["sep"])))
        expect(set(l for _, l in f(D, y)) <= set(range(c["c"])), "unknown class")
        if not c["shuffle"]:
            expect(list(y) == sorted(y), "order changed without shuffle")
