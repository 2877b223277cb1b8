"""generators of transactional data"""
import itertools
import numpy as np
import pandas as pd

STR = list("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789")


def scaled_D(rng, empties=True):
    """many transactions over few items, or many items"""
    if rng.random() < 0.6:
        m = rng.randint(2, 5)
        base = [rng.sample(range(m), rng.randint(1, m)) for _ in range(rng.randint(1, 4))]
        D = [list(t) for t in base for _ in range(rng.choice([1, 2, 70, 150, 260, 300]))]
        if empties and rng.random() < 0.3:
            D.append([])
        rng.shuffle(D)
        return D if D[-1] else D + [[0]]
    m = rng.randint(14, 40)
    D = [[x] for x in range(m) for _ in range(rng.choice([0, 1, 2, 2, 3]))]
    D += [rng.sample(range(m), rng.randint(2, 4)) for _ in range(rng.randint(1, 6)) for _ in range(rng.choice([1, 2]))]
    base = rng.sample(range(m), rng.randint(2, 13))
    D += [[x for x in base if rng.random() < 0.9] or [0] for _ in range(rng.randint(0, 4))]
    rng.shuffle(D)
    D = D[:60]
    return D


def rand_D(rng, maxn=12, maxitems=7, empties=True, big=0.0):
    if big and rng.random() < big:
        return scaled_D(rng, empties)
    n = rng.randint(1, maxn)
    m = rng.randint(1, maxitems)
    kind = rng.random()
    blocks = [rng.sample(range(m), rng.randint(1, min(m, 4))) for _ in range(rng.randint(1, 3))]
    D = []
    for _ in range(n):
        t = set()
        if kind < 0.65:
            for b in blocks:
                if rng.random() < 0.6:
                    t |= {x for x in b if rng.random() < 0.92}
            t |= {x for x in range(m) if rng.random() < 0.12}
        else:
            p = rng.choice([0.2, 0.4, 0.6, 0.85])
            t = {x for x in range(m) if rng.random() < p}
        if t or (empties and rng.random() < 0.3):
            t = list(t)
            rng.shuffle(t)
            D.append(t)
    if not any(D):
        D.append([0])
    if rng.random() < 0.5:
        D = D + [list(rng.choice(D)) for _ in range(rng.randint(0, 6))]
        rng.shuffle(D)
    return D


def label(D, ty):
    """items as ints, strings, or multi-character strings"""
    if ty == "int":
        return [list(t) for t in D]
    if ty == "str":
        return [[STR[x] for x in t] for t in D]
    if ty == "joined":
        return ["".join(STR[x] for x in t) for t in D]
    if ty == "word":
        return [["item%d" % x for x in t] for t in D]
    raise ValueError(ty)


def tabular(D, columns=None):
    items = sorted({x for t in D for x in t}, key=lambda x: (str(type(x)), x)) if columns is None else columns
    return pd.DataFrame([[int(x in t) for x in items] for t in D], columns=items)


def small_D(nmax, m):
    subs = [list(s) for k in range(1, m + 1) for s in itertools.combinations(range(m), k)]
    for n in range(1, nmax + 1):
        for D in itertools.product(subs, repeat=n):
            if n > 1 and 0 not in {x for t in D for x in t}:
                continue
            yield [list(t) for t in D]
