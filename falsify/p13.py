"""event sequences: numbering, counts and frequencies of the data; residuals of a collection of patterns"""
import math
from common import *
from seqdata import *
from treedata import *
from skmine.periodic.pattern import Pattern


def random_case(rng, tier):
    k = rng.random()
    if k < 0.5:
        n = rng.randint(0, 14)
        S = [[rng.randint(-5, 30), rng.randrange(5)] for _ in range(n)]
        return {"k": "seq", "S": S, "names": rng.randrange(4), "dict": rng.random() < 0.5, "np": rng.random() < 0.5}
    if k < 0.7:
        return {"k": "key", "l": [[rng.randint(0, 30), rng.randint(0, 30)] for _ in range(rng.randint(1, 5))]}
    pats = []
    for _ in range(rng.randint(0, 4)):
        t = rand_tree(rng, 2)
        while size(t) > 40:
            t = rand_tree(rng, 1)
        pats.append([t, rng.randint(0, 40), [rng.randint(-2, 2) for _ in range(size(t) - 1)]])
    return {"k": "coll", "pats": pats, "S": [[rng.randint(0, 60), rng.randrange(4)] for _ in range(rng.randint(1, 20))],
            "twice": rng.random() < 0.5}


def nontrivial(c):
    return len(c.get("S", c.get("l"))) > 2


NAMES = [["a", "b", "c", "d", "e"], ["e", "D", "10", "9", ""], [4, -3, 2, 1, 0], ["z", "é", "A", "zz", "y"]]


def check(c):
    import numpy as np
    if c["k"] == "key":
        key_to_l, l_to_key = need("skmine.periodic.class_patterns", "key_to_l"), need("skmine.periodic.class_patterns", "l_to_key")
        if not c["l"] or any(len(x) != 2 for x in c["l"]):
            return
        expect(key_to_l(l_to_key(c["l"])) == c["l"], "position {} read back as {}", c["l"], key_to_l(l_to_key(c["l"])))
        expect(l_to_key([tuple(x) for x in c["l"]]) == l_to_key(c["l"]), "tuples and lists differ")
        return
    DS = need("skmine.periodic.data_sequence", "DataSequence")
    if c["k"] == "seq":
        names, S = NAMES[c["names"]], c["S"]
        if any(len(x) != 2 or not 0 <= x[1] < 5 for x in S):
            return
        ev = [(t, names[e]) for t, e in S]
        if c["dict"]:
            d = {}
            for t, e in ev:
                d.setdefault(e, []).append(t)
            arg = {e: np.array(v) for e, v in d.items()} if c["np"] else d
        else:
            arg = list(ev)
        keep = list(arg) if isinstance(arg, list) else {e: list(v) for e, v in arg.items()}
        ds = DS(arg)
        expect((list(arg) if isinstance(arg, list) else {e: list(v) for e, v in arg.items()}) == keep, "argument changed")
        alpha = sorted({e for _, e in ev})
        num = {e: i for i, e in enumerate(alpha)}
        expect(ds.getEvents() == alpha, "events {}", ds.getEvents())
        expect(ds.getNumToEv() == dict(enumerate(alpha)), "numbering {}", ds.getNumToEv())
        want = sorted((t, num[e]) for t, e in ev)
        expect([(int(t), int(e)) for t, e in ds.getSequence()] == want, "sequence {} instead of {}", ds.getSequence(), want)
        for i, e in enumerate(alpha):
            expect([int(t) for t in ds.getSequence(i)] == [t for t, x in ev if x == e], "times of event {}", e)
        expect(list(ds.getSequence(len(alpha))) == [], "unknown event has times")
        D = ds.getDetails()
        n = len(ev)
        expect(D["nbOccs"][-1] == n, "total {}", D["nbOccs"][-1])
        ts = [t for t, _ in ev]
        if n:
            expect((D["t_start"], D["t_end"], D["deltaT"]) == (min(ts), max(ts), max(ts) - min(ts)), "time span {}", D)
        else:
            expect(D["deltaT"] == 0, "time span of nothing")
        for i, e in enumerate(alpha):
            k = sum(x == e for _, x in ev)
            expect(D["nbOccs"][i] == k, "{} occurrences of {}", D["nbOccs"][i], e)
            expect(close(D["orgFreqs"][i], k / n) and close(D["adjFreqs"][i], k / (3 * n)), "frequencies of {}", e)
            mine = [t for t, x in ev if x == e]
            expect((ds.evStarts[i], ds.evEnds[i]) == (min(mine), max(mine)), "start and end of {}", e)
        expect(set(D["orgFreqs"]) == set(range(len(alpha))), "events with a frequency")
        if n:
            expect(close(sum(D["adjFreqs"].values()), 1), "adjusted frequencies sum to {}", sum(D["adjFreqs"].values()))
        expect(close(D["blck_delim"], 2 * math.log2(3)), "block delimiters")
        cl = sum(-math.log2(D["orgFreqs"][num[e]]) + math.log2(D["deltaT"] + 1) for _, e in ev)
        expect(close(ds.codeLengthResiduals(), cl), "residual code length {} instead of {}", ds.codeLengthResiduals(), cl)
        return
    PC = need("skmine.periodic.pattern_collection", "PatternCollection")
    S = [x for x in c["S"] if len(x) == 2 and 0 <= x[1] < 4]
    if not S or any(len(p) != 3 or len(p[2]) != size(p[0]) - 1 for p in c["pats"]):
        return
    used = sorted({e for _, e in S})
    ds = DS([(t, e) for t, e in S])
    num = {e: i for i, e in enumerate(used)}
    # events of patterns are event numbers
    pats = [(Pattern(to_nodes(t)), t0, E) for t, t0, E in c["pats"]]
    pc = PC(list(pats[:1]) if c["twice"] else pats)
    if c["twice"]:
        pc.getOccLists()
        pc.patterns.extend(pats[1:])
    cov = [expand(t, t0, [0] + E) for t, t0, E in c["pats"]]
    got = [[(int(a), b) for a, b in l] for l in pc.getOccLists()]
    expect(got == cov, "occurrences of the patterns {} instead of {}", got, cov)
    expect(len(pc) == len(pats) and pc.getPatterns() == pats, "patterns")
    res = {(t, num[e]) for t, e in S} - {x for l in cov for x in l}
    for _ in range(2):
        u = pc.getUncoveredOccs(ds)
        expect({(int(t), int(e)) for t, e in u} == res, "uncovered {} instead of {}", sorted(u), sorted(res))
        nb = pc.getNbUncoveredOccsByEv(ds)
        expect({int(e): n for e, n in nb.items()} == {e: sum(x == e for _, x in res) for e in {x for _, x in res}},
               "uncovered by event {}", nb)
    ty = {}
    for P, _, _ in pats:
        ty[P.getTypeStr()] = ty.get(P.getTypeStr(), 0) + 1
    expect(pc.nbPatternsByType() == ty and sum(ty.values()) == len(pats), "patterns by type {}", pc.nbPatternsByType())
