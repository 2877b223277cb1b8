"""MDLP discretizer: cut points are those of recursive entropy minimisation with the MDL stopping rule; bins follow them"""
import bisect, math
from collections import Counter
import numpy as np
import pandas as pd
from common import *
from skmine.preprocessing import MDLPDiscretizer


def random_case(rng, tier):
    n = rng.randint(1, 16 if tier == "quick" else 40)
    ncol = rng.randint(1, 3)
    ties = rng.random() < 0.4
    k = rng.randint(1, 3)
    y = [rng.randrange(k) for _ in range(n)]
    cols = []
    for _ in range(ncol):
        mode = rng.random()
        if mode < 0.5:
            base = [v * rng.choice([2, 3, 5]) + rng.uniform(-1.5, 1.5) for v in y]
        else:
            base = [rng.uniform(-5, 5) for _ in y]
        cols.append([round(v, 0 if ties else 6) for v in base])
    N = [[rng.choice(cols[j]) if rng.random() < 0.4 else round(rng.uniform(-8, 12), 2) for j in range(ncol)]
         for _ in range(rng.randint(1, 6))]
    return {"X": [list(r) for r in zip(*cols)], "y": y, "N": N, "df": rng.random() < 0.5, "perm": rng.random() < 0.5,
            "seed": rng.randint(0, 5), "edges": rng.random() < 0.3, "pre": rng.random() < 0.3}


def nontrivial(c):
    return len(set(c["y"])) > 1 and len(c["X"]) > 3


def ent(ys):
    n = len(ys)
    return -sum(v / n * math.log2(v / n) for v in Counter(ys).values())


def split_ent(y, a, k, b):
    return ((k - a) * ent(y[a:k]) + (b - k) * ent(y[k:b])) / (b - a)


def margin(y, a, k, b):
    """> 0 iff the MDL criterion accepts the cut k of y[a:b]"""
    n = b - a
    e0, e1, e2 = ent(y[a:b]), ent(y[a:k]), ent(y[k:b])
    k0, k1, k2 = len(set(y[a:b])), len(set(y[a:k])), len(set(y[k:b]))
    gain = e0 - split_ent(y, a, k, b)
    delta = math.log2(3 ** k0 - 2) - (k0 * e0 - k1 * e1 - k2 * e2)
    return gain - (math.log2(n - 1) + delta) / n


def solutions(y, a, b, memo):
    """all sets of cut indices the method may return on y[a:b] (several only when entropies tie)"""
    if (a, b) in memo:
        return memo[(a, b)]
    ks = [k for k in range(a + 1, b) if y[k - 1] != y[k]]
    out = set()
    if not ks:
        out.add(frozenset())
    else:
        es = {k: split_ent(y, a, k, b) for k in ks}
        m = min(es.values())
        for k in ks:
            if es[k] <= m + 1e-9:
                g = margin(y, a, k, b)
                if g > -1e-9:
                    for l in solutions(y, a, k, memo):
                        for r in solutions(y, k, b, memo):
                            out.add(l | r | {k})
                            if len(out) > 400:
                                raise Skip("too many ties")
                if g < 1e-9:
                    out.add(frozenset())
    memo[(a, b)] = out
    return out


def check(c):
    X, y = np.array(c["X"], dtype=float), np.array(c["y"], dtype=int)
    if len(X) != len(y) or len(X) == 0:
        return
    n, m = X.shape
    names = ["c%d" % ((j * 2 + 1) % 7) for j in range(m)]
    A = pd.DataFrame(X.copy(), columns=names, index=range(5, 5 + n)) if c["df"] else X.copy()
    keys = names if c["df"] else list(range(m))
    d = MDLPDiscretizer(random_state=c["seed"])
    if c.get("pre"):        # fitted before on other columns
        P = np.array([[(i * 7 + j * 3) % 11 for j in range(m + 1)] for i in range(12)], dtype=float)
        d.fit(P, np.array([i % 2 for i in range(12)]))
    d.fit(A, y.copy())
    expect(list(d.cut_points_) == keys, "cut points for {} instead of {}", list(d.cut_points_), keys)
    for j, key in enumerate(keys):
        cuts = [float(v) for v in d.cut_points_[key]]
        expect(all(a < b for a, b in zip(cuts, cuts[1:])), "cut points not increasing: {}", cuts)
        expect(all(math.isfinite(v) for v in cuts), "infinite cut point: {}", cuts)
        xs = sorted(X[:, j])
        mids = {(xs[i - 1] + xs[i]) / 2 for i in range(1, n)}
        expect(all(v in mids for v in cuts), "cut point {} is not between two neighbouring values", cuts)
        if len(set(X[:, j])) == n:
            o = np.argsort(X[:, j])
            yy = [int(v) for v in y[o]]
            sols = {tuple(sorted((xs[k - 1] + xs[k]) / 2 for k in s)) for s in solutions(yy, 0, n, {})}
            expect(tuple(cuts) in sols, "cut points {} instead of {}", cuts, sorted(sols))
    d2 = MDLPDiscretizer(random_state=c["seed"]).fit(A, y.copy())
    expect(all(np.array_equal(d2.cut_points_[k], d.cut_points_[k]) for k in keys), "same seed, other cut points")
    pd.testing.assert_series_equal(d.discover().astype(str), pd.Series(d.cut_points_, dtype=object).astype(str))
    N = np.array(c["N"], dtype=float)
    if N.ndim != 2 or N.shape[1] != m:
        return
    if c["edges"]:
        for j, key in enumerate(keys):
            for i in range(min(len(N), len(d.cut_points_[key]))):
                N[i, j] = d.cut_points_[key][i]
    if c["df"]:
        order = list(reversed(names)) if c["perm"] else names
        arg = pd.DataFrame(N, columns=names)[order]
        out = d.transform(arg)
        expect(isinstance(out, pd.DataFrame), "a data frame becomes a {}", type(out).__name__)
        expect(list(out.columns) == order and len(out) == len(N), "shape or columns changed")
        res = {k: [int(v) for v in out[k]] for k in names}
        bad = raises(ValueError, d.transform, arg.rename(columns={names[0]: "zz"}))
        expect(bad is not None, "unknown column accepted")
    else:
        out = d.transform(N.copy())
        expect(isinstance(out, np.ndarray), "an array becomes a {}", type(out).__name__)
        expect(out.shape == N.shape, "shape {} instead of {}", out.shape, N.shape)
        res = {k: [int(v) for v in out[:, j]] for j, k in enumerate(keys)}
    for j, key in enumerate(keys):
        cuts = [float(v) for v in d.cut_points_[key]]
        for i in range(len(N)):
            want = sum(1 for v in cuts if v < N[i, j])
            expect(res[key][i] == want, "value {} with cut points {} falls in bin {} instead of {}", N[i, j], cuts,
                   res[key][i], want)
