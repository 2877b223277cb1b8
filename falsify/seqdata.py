"""generators of event logs"""
import numpy as np
import pandas as pd

NS = 10 ** 9
EV = ["a", "b", "c", "d"]


def rand_seq(rng, maxn=40):
    """list of [time, event number]; integer times"""
    kind = rng.random()
    S = []
    if kind < 0.15:
        n = rng.randint(2, maxn)
        S = [[rng.randint(0, 4 * n), rng.randrange(rng.randint(1, 3))] for _ in range(n)]
    elif kind < 0.6:
        for _ in range(rng.randint(1, 3)):
            t, p, r = rng.randint(0, 50), rng.randint(1, 30), rng.randint(2, 12)
            j = rng.choice([0, 0, 1, 2])
            e = rng.randrange(3)
            for i in range(r):
                S.append([max(0, t + i * p + (rng.randint(-j, j) if j else 0)), e])
    else:
        # nested: a block of events repeated, blocks repeated
        block = [[rng.randint(0, 6), rng.randrange(3)] for _ in range(rng.randint(1, 3))]
        p1, r1 = rng.randint(8, 15), rng.randint(2, 5)
        p2, r2 = rng.randint(60, 100), rng.randint(1, 5)
        j = rng.choice([0, 0, 1, 2])
        t0 = rng.randint(0, 40)
        for a in range(r2):
            for b in range(r1):
                for d, e in block:
                    S.append([max(0, t0 + a * p2 + b * p1 + d + (rng.randint(-j, j) if j else 0)), e])
    for _ in range(rng.choice([0, 0, 1, 3, 6])):
        S.append([rng.randint(0, 300), rng.randrange(4)])
    if rng.random() < 0.3 and S:
        for _ in range(rng.randint(1, 3)):
            S.append(list(rng.choice(S)))
    S = S[:maxn * 2]
    if len(S) < 2:
        S += [[3, 0], [7, 1]]
    if rng.random() < 0.6:
        S.sort()
    else:
        rng.shuffle(S)
    return S


UNITS = [1, 7, 10, 1000, 250000, NS, 60 * NS, 90 * NS, 3600 * NS, 24 * 3600 * NS]


def series(S, unit, dt, base=0, names=EV):
    times = [base + t * unit for t, _ in S]
    idx = pd.DatetimeIndex(np.array(times, dtype="datetime64[ns]")) if dt else pd.Index(times, dtype="int64")
    for k, (q, u) in enumerate([(NS, "s"), (10 ** 6, "ms")]):     # also timestamps of a coarser resolution
        if dt and times and hasattr(idx, "as_unit") and len(S) % 3 == k and not any(t % q for t in times):
            idx = idx.as_unit(u)
    return pd.Series([names[e] for _, e in S], index=idx)


def pairs(S, unit, base=0, names=EV):
    return {(base + t * unit, names[e]) for t, e in S}


def as_pairs(df):
    """set and list of (time in ns or as given, event) of a frame returned by the miner"""
    if not len(df):
        return set(), []
    l = [(int(pd.Timestamp(t).value) if isinstance(t, pd.Timestamp) else int(t), e)
         for t, e in zip(df["time"], df["event"])]
    return set(l), l
