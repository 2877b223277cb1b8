"""helpers: common rows of two arrays, sliding windows, maximal cliques"""
import itertools
import networkx
import numpy as np
from common import *


def random_case(rng, tier):
    k = rng.choice(["rows", "win", "clique"])
    if k == "rows":
        m = rng.randint(1, 3)
        r = lambda: [[rng.randint(0, 2) for _ in range(m)] for _ in range(rng.randint(1, 6))]
        return {"k": k, "a": r(), "b": r()}
    if k == "win":
        if rng.random() < 0.6:
            n = rng.randint(1, 8)
            return {"k": k, "x": [rng.randint(0, 9) for _ in range(n)], "w": rng.randint(1, n + 1)}
        n, m = rng.randint(1, 4), rng.randint(1, 4)
        return {"k": k, "x": [[rng.randint(0, 9) for _ in range(m)] for _ in range(n)],
                "w": [rng.randint(1, n), rng.randint(1, m)]}
    n, p = rng.randint(1, 7), rng.choice([0.3, 0.5, 0.8])
    if rng.random() < 0.1:
        n, p = rng.choice([(rng.randint(8, 22), 0.3), (rng.randint(8, 18), 0.6), (rng.randint(8, 14), 1.0)])
    return {"k": k, "n": n, "E": [list(e) for e in itertools.combinations(range(n), 2) if rng.random() < p]}


def nontrivial(c):
    return True


def cliques(n, E):
    if n > 8:
        g = networkx.Graph([tuple(e) for e in E])
        g.add_nodes_from(range(n))
        return [set(s) for s in networkx.find_cliques(g)]
    E = {frozenset(e) for e in E}
    al = [set(s) for k in range(1, n + 1) for s in itertools.combinations(range(n), k)
          if all(frozenset(e) in E for e in itertools.combinations(s, 2))]
    return [s for s in al if not any(s < t for t in al)]


def check(c):
    if c["k"] == "rows":
        f = need("skmine.utils", "intersect2d")
        a, b = np.array(c["a"]), np.array(c["b"])
        if a.ndim != 2 or b.ndim != 2 or a.shape[1] != b.shape[1]:
            return
        want = sorted({tuple(r) for r in c["a"]} & {tuple(r) for r in c["b"]})
        r, i, j = f(a, b)
        expect([tuple(x) for x in r.tolist()] == want, "common rows {} instead of {}", r.tolist(), want)
        expect([c["a"].index(list(t)) for t in want] == i.tolist() and [c["b"].index(list(t)) for t in want] ==
               j.tolist(), "indices {} {} are not the first occurrences", i.tolist(), j.tolist())
        expect([tuple(x) for x in f(a, b, return_indices=False).tolist()] == want, "without indices")
    elif c["k"] == "win":
        f = need("skmine.utils", "sliding_window_view")
        x = np.array(c["x"])
        w = c["w"]
        if x.ndim == 1 and isinstance(w, int):
            if w > len(x):
                expect(raises(ValueError, f, x, w) is not None, "window larger than the array accepted")
                return
            want = [c["x"][i:i + w] for i in range(len(x) - w + 1)]
        elif x.ndim == 2 and isinstance(w, list) and len(w) == 2:
            n, m = x.shape
            want = [[x[i:i + w[0], j:j + w[1]].tolist() for j in range(m - w[1] + 1)] for i in range(n - w[0] + 1)]
        else:
            return
        v = f(x, tuple(w) if isinstance(w, list) else w)
        expect(v.tolist() == want, "windows {} instead of {}", v.tolist(), want)
        expect(x.tolist() == c["x"], "argument changed")
    elif c["k"] == "clique":
        f = need("skmine.utils", "bron_kerbosch")
        adj = {v: [u for u in range(c["n"]) if [min(u, v), max(u, v)] in c["E"]] for v in range(c["n"])}
        got = [frozenset(x) for x in f(adj)]
        want = [frozenset(s) for s in cliques(c["n"], c["E"]) if len(s) > 2]
        expect(sorted(map(sorted, got)) == sorted(map(sorted, want)), "cliques {} instead of {}", sorted(map(sorted, got)),
               sorted(map(sorted, want)))
    else:
        return
