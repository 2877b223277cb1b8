"""a fitted SLIM model on new data: covers, code lengths and decision values"""
import math
from common import *
from itemdata import *
from slimref import *
from skmine.itemsets import SLIM


def exhaustive(tier):
    for D in small_D(2, 3):
        for N in ([[0], [1], [0, 1], [0, 1, 2]], [[2, 1], [3], [0, 3], [1]]):
            yield {"D": D, "N": N, "ty": "str", "pruning": False, "mode": "list"}


def random_case(rng, tier):
    D = rand_D(rng, 14, 7, empties=False, big=0.03)
    m = max([x for t in D for x in t]) + 1
    mode = rng.choice(["list", "list", "tab"])
    N = rand_D(rng, 8, m + (2 if mode == "list" else 0))
    if rng.random() < 0.5:
        N = N + [list(t) for t in rng.sample(D, min(3, len(D)))]
    return {"D": D, "N": N, "ty": rng.choice(["int", "str", "word"]), "pruning": rng.random() < 0.3, "mode": mode,
            "pre": rand_D(rng, 10, 7, empties=False) if rng.random() < 0.25 else None, "other": rand_D(rng, 6, m) if rng.random() < 0.3 else None}


def nontrivial(c):
    return len(c["D"]) > 1 and max(map(len, c["D"])) > 1 and len(c["N"]) > 1


def check(c):
    if not c["D"] or not c["N"] or not all(c["D"]) or not any(c["N"]):
        return
    ty = "str" if c["mode"] == "tab" else c["ty"]
    D, N = label(c["D"], ty), label(c["N"], ty)
    s = SLIM(pruning=c["pruning"])
    if c.get("pre") and all(c["pre"]):       # a model fitted and used before on other data
        P = label(c["pre"], ty)
        s.fit(tabular(P) if c["mode"] == "tab" else P)
        s.get_code_length(tabular(P) if c["mode"] == "tab" else P)
    if c["mode"] == "tab":
        cols = sorted({x for t in D for x in t})
        s.fit(tabular(D, cols))
        ncols = sorted(set(cols) | {x for t in N for x in t})
        arg = tabular(N, ncols)
    else:
        s.fit(D)
        arg = N
    if c.get("other") and any(c["other"]):
        O = label(c["other"], ty)
        for f in (s.cover, s.decision_function):
            f(tabular(O, sorted(set(cols) | {x for t in O for x in t})) if c["mode"] == "tab" else O)
    known = {x for t in D for x in t}
    ct = codetable(s)
    order = [X for X, _ in ct]
    mat = s.cover(arg)
    expect(len(mat) == len(N), "cover() has {} rows for {} transactions", len(mat), len(N))
    cols = [frozenset(x) for x in mat.columns]
    expect(len(set(cols)) == len(cols), "cover() has duplicate columns")
    expect(set(cols) <= set(order), "cover() uses itemsets outside the code table")
    ref = greedy(order, [set(t) & known for t in N])
    for i, t in enumerate(N):
        used = [X for X, b in zip(cols, mat.iloc[i].tolist()) if b]
        expect(all(b in (True, False) for b in mat.iloc[i].tolist()), "cover() is not boolean")
        expect(sum(map(len, used)) == len(frozenset().union(*used)) if used else True,
               "transaction {} is covered by overlapping itemsets {}", t, [set(x) for x in used])
        expect(frozenset().union(*used) == set(t) & known, "transaction {} is covered by {}: known items are {}", t,
               [set(x) for x in used], set(t) & known)
        expect(set(used) == set(ref[i][0]), "transaction {} is covered by {} instead of {}", t,
               [set(x) for x in used], [set(x) for x in ref[i][0]])
    tot = sum(len(t) + 1 for _, t in ct)
    code = {X: -math.log2((len(t) + 1) / tot) for X, t in ct}
    cl = s.get_code_length(arg)
    df = s.decision_function(arg)
    expect(len(cl) == len(N) and len(df) == len(N), "one code length per transaction expected")
    for i, t in enumerate(N):
        want = sum(code[X] for X in ref[i][0])
        got = float(cl.iloc[i])
        if want == 0:
            expect(got == math.inf, "transaction {} without any coded item has code length {}", t, got)
        else:
            expect(close(got, want, 2e-5), "code length of {} is {} instead of {}", t, got, want)
        dv = float(df.iloc[i])
        expect(0 <= dv <= 1 and close(dv, math.exp(-0.2 * got), 2e-5), "decision value {} for code length {}", dv, got)
    for i in range(len(N)):
        for j in range(len(N)):
            if cl.iloc[i] < cl.iloc[j]:
                expect(df.iloc[i] >= df.iloc[j], "a shorter code has a lower decision value")
    expect(codetable(s) == ct, "covering new data changed the model")
