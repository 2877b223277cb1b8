"""cost of periodic patterns and selection of candidates"""
import itertools, math
import numpy as np
from common import *
from seqdata import *
from treedata import *
from skmine.periodic import PeriodicPatternMiner
from skmine.periodic.pattern import Pattern


def rocc(rng, n, w=5):
    t, out = rng.randint(0, 5), []
    p = rng.randint(1, w)
    for _ in range(n):
        out.append(t)
        t += max(1, p + rng.choice([0, 0, 0, -1, 1, 7]))
    return out


def random_case(rng, tier):
    k = rng.choice(["mine", "mine", "mine", "dyn", "splits", "merge", "cover", "topk", "pids", "slice", "clique", "concat", "cycle",
                    "pool", "fold", "treecost"] + (["bigfold"] if rng.random() < 0.05 else []))
    if k == "mine":
        return {"k": k, "S": rand_seq(rng, 25), "complex": rng.random() < 0.6}
    if k in ("dyn", "cycle", "fold"):
        o = rocc(rng, rng.randint(2 if k == "dyn" else 3, 9))
        return {"k": k, "o": o, "extra": rng.randint(0, 60), "more": rng.randint(0, 10)}
    if k == "bigfold":
        return {"k": k, "n": rng.randint(1990, 4700), "p": rng.randint(20, 60)}
    if k == "splits":
        def segs(lo, hi):
            out, i = [], lo
            while i < hi:
                j = min(hi, i + rng.randint(2, 5))
                if rng.random() < 0.7:
                    out.append([i, j])
                i = j + 1
            return out
        a = segs(0, 12)
        return {"k": k, "a": a, "b": segs(rng.randint(5, 10), 20)}
    if k == "merge":
        return {"k": k, "L": [[[rng.randint(0, 2), rng.randint(2, 4), rng.randint(1, 3), rng.randint(0, 5)]
                               for _ in range(rng.randint(0, 4))] for _ in range(rng.randint(1, 3))]}
    if k in ("cover", "topk"):
        n = rng.randint(0, 9)
        return {"k": k, "c": [[sorted(rng.sample(range(12), rng.randint(3, 6))), rng.randrange(2), rng.randint(1, 40)]
                              for _ in range(n)], "d": [rng.randint(1, 12), rng.randint(1, 12)],
                "m": rng.randint(1, 3), "dict": rng.random() < 0.5}
    if k == "pids":
        pr = [[rng.randint(0, 4), rng.randint(0, 2), rng.randint(0, 2)] for _ in range(rng.randint(0, 10))]
        return {"k": k, "p": pr, "cut": rng.randint(0, 10)}
    if k == "slice":
        n = rng.randint(1, 30)
        return {"k": k, "v": sorted(rng.randint(0, 9) for _ in range(n)), "m": rng.randint(-1, 10), "s": rng.randint(1, 8)}
    if k == "clique":
        n = rng.randint(0, 7)
        return {"k": k, "n": n, "e": [[i, j] for i in range(n) for j in range(i) if rng.random() < 0.6]}
    if k == "concat":
        r = rng.randint(2, 4)
        return {"k": k, "r": r, "p": rng.randint(5, 20), "o": [[rocc(rng, r + rng.randint(0, 2), 15), rng.randint(0, 2)]
                                                               for _ in range(rng.randint(2, 3))], "f": rng.randint(0, 1)}
    if k == "pool":
        return {"k": k, "c": [[rng.randint(0, 3), rng.randint(1, 3), rng.randint(3, 4), rng.randrange(2)] for _ in range(rng.randint(1, 8))],
                "one": rng.randint(0, 8)}
    t = rand_tree(rng, 2)
    while size(t) > 60:
        t = rand_tree(rng, 2)
    return {"k": k, "t": t, "E": [rng.randint(-2, 2) for _ in range(size(t) - 1)]}


def nontrivial(c):
    return len(str(c)) > 80


def lg(x):
    return math.log2(x)


def cyc_cost(o, ev, D, err=True, p=None):
    """L(A) + L(R) + L(p) + L(t0) + L(E)"""
    d = sorted(b - a for a, b in zip(o, o[1:]))
    m = len(d)
    p = math.floor((d[(m - 1) // 2] + d[m // 2]) / 2) if p is None else p
    E = [b - a - p for a, b in zip(o, o[1:])] if err else []
    s = sum(E)
    v = math.floor((D["deltaT"] - s) / m)
    t = D["deltaT"] - s - p * m + 1
    if v <= 0 or t <= 0:
        return None, p
    return (-lg(D["nbOccs"][ev] / (3 * D["nbOccs"][-1])) + 2 * lg(3) + lg(D["nbOccs"][ev]) + lg(v) + lg(t)
            + sum(2 + abs(e) for e in E)), p


def ds_of(o, extra, more):
    DS = need("skmine.periodic.data_sequence", "DataSequence")
    ev = [(t, 0) for t in o] + [(o[-1] + extra, 1)] + [(o[0], 2)] * more
    return DS(ev)


class Fake:
    pass


def check(c):
    k = c["k"]
    R, CP, EX = "skmine.periodic.run_mine", "skmine.periodic.class_patterns", "skmine.periodic.extract_cycles"
    if k == "mine":
        if len(c["S"]) < 2:
            return
        m = PeriodicPatternMiner(complex=c["complex"], auto_time_scale=False).fit(series(c["S"], 1, False))
        pc, ds = m.miners_, need("skmine.periodic.data_sequence", "DataSequence")(
            sorted({(t, EV[e]) for t, e in c["S"]}))
        D = ds.getDetails()
        total = 0
        for P, t0, E in pc.getPatterns():
            cl = float(P.codeLength(t0, E, D))
            total += cl
            expect(cl == cl and cl > 0, "a pattern costs {}", cl)
            cov = P.getCovSeq(t0, E)
            expect(len(set(cov)) >= 3, "a pattern covers {}", cov)
            if P.isSimpleCycle():
                w, p = cyc_cost([int(t) for t, _ in cov], cov[0][1], D, p=P.nodes[0]["p"])
                expect(w is None or close(cl, w), "cycle {} costs {} instead of {}", cov, cl, w)
                expect(P.nodes[0]["r"] == len(cov), "{} repetitions for {}", P.nodes[0]["r"], cov)
        rest = pc.getUncoveredOccs(ds)
        one = lambda e: -lg(D["orgFreqs"][e]) + lg(D["deltaT"] + 1)
        total += sum(one(e) for _, e in rest)
        alone = sum(one(e) for _, e in ds.getSequence())
        expect(close(pc.codeLength(ds), total), "code length {} instead of {}", pc.codeLength(ds), total)
        expect(total <= alone + 0.25 * len(pc.getPatterns()) + 1e-6, "the model costs {} but the events alone {}", total, alone)
        return
    if k == "cycle":
        f = need(CP, "computeLengthCycle")
        o = c["o"]
        if len(o) < 3 or sorted(set(o)) != o:
            return
        ds = ds_of(o, c["extra"], c["more"])
        D = ds.getDetails()
        w, p = cyc_cost(o, 0, D)
        expect(need(CP, "computePeriod")(o) == p, "period {} instead of {}", need(CP, "computePeriod")(o), p)
        expect(need(CP, "computePeriod")(o[::-1], sort=True) == p, "period of unsorted occurrences")
        E = need(CP, "computeE")(o, p)
        expect(list(E) == [b - a - p for a, b in zip(o, o[1:])], "corrections {}", E)
        P = Pattern({0: {"p": p, "r": len(o), "children": [(1, 0)], "parent": None}, 1: {"event": 0, "parent": 0}})
        expect([t for t, _ in P.getCovSeq(o[0], list(E))] == o, "the cycle does not give its occurrences back")
        if w is not None:
            g = f(D, {"p": None, "alpha": 0, "occs": list(o)})
            expect(close(g, w), "cycle {} costs {} instead of {}", o, g, w)
            expect(close(float(P.codeLength(o[0], list(E), D)), w), "pattern {} costs {} instead of {}", o,
                   P.codeLength(o[0], list(E), D), w)
        return
    if k == "dyn":
        f = need(EX, "compute_cycles_dyn")
        o = c["o"]
        if len(o) < 2 or sorted(set(o)) != o:
            return
        D = ds_of(o, c["extra"] + 5, c["more"]).getDetails()
        one = need(CP, "cost_one")(D, 0)
        cost = lambda i, j: cyc_cost(o[i:j], 0, D)[0]
        n = len(o)
        if any(cost(i, j) is None for i in range(n) for j in range(i + 3, n + 1)):
            return
        best = [0.0]
        for j in range(1, n + 1):
            best.append(min([best[j - 1] + one] + [best[i] + cost(i, j) for i in range(j - 2)]))
        for arg in (list(o), np.array(o)):
            out = f(arg, 0, D)
            used = [int(t) for x in out for t in x["occs"]]
            expect(sorted(used) == o, "segments {} do not partition {}", out, o)
            tot = 0
            for x in out:
                q = [int(t) for t in x["occs"]]
                if "cost" in x:
                    i = o.index(q[0])
                    expect(o[i:i + len(q)] == q and len(q) >= 3, "segment {} is not contiguous", q)
                    w, p = cyc_cost(q, 0, D)
                    expect(x["p"] == p and close(x["cost"], w), "segment {}: period {} cost {} instead of {}", q, x["p"], x["cost"], w)
                    tot += w
                else:
                    tot += one * len(q)
            expect(close(tot, best[n]), "segmentation of {} costs {}, the best costs {}", o, tot, best[n])
            no = f(arg, 0, D, residuals=False)
            expect([list(map(int, x["occs"])) for x in no] == [list(map(int, x["occs"])) for x in out if "cost" in x],
                   "residuals=False")
        return
    if k == "splits":
        f = need(EX, "combine_splits")
        a, b = [tuple(x) for x in c["a"]], [tuple(x) for x in c["b"]]
        if any(len(x) != 2 or x[0] > x[1] for x in a + b) or any(x[1] >= y[0] for l in (a, b) for x, y in zip(l, l[1:])):
            return
        out = f(list(a), list(b))
        expect(all(x[1] < y[0] for x, y in zip(out, out[1:])), "{} + {} gives overlapping {}", a, b, out)
        pts = lambda l: {i for x, y in l for i in range(x, y + 1)}
        lim = b[0][0] if b else 10 ** 9
        expect(pts(out) <= pts(a) | pts(b) and {i for i in pts(a) if i < lim} <= pts(out), "{} + {} gives {}", a, b, out)
        return
    if k == "merge":
        f = need(R, "merge_cycle_lists")
        if any(len(x) != 4 or x[1] < 1 for l in c["L"] for x in l):
            return
        L = [[{"alpha": 0, "occs": [t + i * p for i in range(r)], "p": p, "cost": co} for t, r, p, co in l] for l in c["L"]]
        best = {}
        for l in c["L"]:
            for t, r, p, co in l:
                best[t, r, p] = min(co, best.get((t, r, p), co))
        out = [(x["occs"][0], len(x["occs"]), x["p"], x["cost"]) for x in f(L)]
        expect(out == [(*q, best[q]) for q in sorted(best)], "merged to {} instead of {}", out, best)
        return
    if k in ("cover", "topk"):
        Cand = need("skmine.periodic.candidate", "Candidate")
        if any(len(x) != 3 or len(x[0]) < 3 or sorted(set(x[0])) != x[0] or x[2] < 1 for x in c["c"]) or len(c["d"]) != 2 or c["m"] < 1:
            return
        cs = [Cand(i, {"occs": list(o), "alpha": e, "cost": float(w), "p": 1, "E": [0] * (len(o) - 1)}) for i, (o, e, w) in enumerate(c["c"])]
        sets = [{(t, e) for t in o} for o, e, _ in c["c"]]
        arg = dict(enumerate(cs)) if c["dict"] else cs
        if k == "topk":
            sel = need(R, "filter_candidates_topKeach")(arg, k=c["m"])
            expect(len(sel) == len(set(sel)) and set(sel) <= set(range(len(cs))), "selection {}", sel)
            if len(cs) <= c["m"]:
                expect(sorted(sel) == list(range(len(cs))), "candidates dropped although there are at most k")
                return
            ratio = lambda i: (c["c"][i][2] / len(sets[i]), i)
            cnt, want = {}, []
            for i in sorted(range(len(cs)), key=ratio):
                if any(cnt.get(x, 0) <= c["m"] for x in sets[i]):
                    want.append(i)
                    for x in sets[i]:
                        cnt[x] = cnt.get(x, 0) + 1
            expect(list(sel) == want, "selected {} instead of {}", sel, want)
            return
        d = {0: float(c["d"][0]), 1: float(c["d"][1])}
        sel = need(R, "filter_candidates_cover")(arg, d, min_cov=c["m"])
        expect(len(sel) == len(set(sel)) and set(sel) <= set(range(len(cs))), "selection {}", sel)
        cov, total = set(), 0.0
        for n, i in enumerate(sel):
            new = sets[i] - cov
            expect(len(new) >= c["m"], "candidate {} was selected for {} new occurrences", i, len(new))
            expect(c["c"][i][2] < sum(d[e] for _, e in new), "candidate {} costs more than the {} occurrences it adds", i, len(new))
            cov |= sets[i]
            total += c["c"][i][2]
        # greedy: no rejected candidate was strictly better than the one selected at that point
        cov, left, want, eff = set(), list(range(len(cs))), [], min(d.values())
        first = None
        ok = [i for i in range(len(cs))]
        ratio = lambda i, cov: c["c"][i][2] / len(sets[i] - cov) if sets[i] - cov else float("inf")
        for i in sel:
            r = ratio(i, cov)
            for j in range(len(cs)):
                if j not in want and j not in sel and len(sets[j] - cov) >= c["m"]:
                    expect(not (ratio(j, cov) < r - 1e-9 and ratio(j, cov) <= eff - 1e-9), "{} was taken before the cheaper {}", i, j)
            want.append(i)
            cov |= sets[i]
        for j in range(len(cs)):
            if j not in sel and len(sets[j] - cov) >= c["m"]:
                expect(ratio(j, cov) > eff - 1e-9, "candidate {} is still efficient but was not selected", j)
        return
    if k == "pids":
        f, g = need(CP, "mergeSortedPids"), need(CP, "sortPids")
        if any(len(x) != 3 for x in c["p"]):
            return
        props = np.array([x + [0, 0, 0, 0] for x in c["p"]]) if c["p"] else np.zeros((0, 7))
        n, cut = len(c["p"]), min(c["cut"], len(c["p"]))
        key = lambda i: tuple(c["p"][i])
        for q in (props, props.tolist()):
            s = g(q)
            expect(sorted(s) == list(range(n)) and [key(i) for i in s] == sorted(map(key, range(n))), "sorted {}", s)
            out = f(q, g(q, range(cut)), g(q, range(cut, n)))
            expect(sorted(out) == list(range(n)) and [key(i) for i in out] == sorted(map(key, range(n))), "merged {}", out)
        return
    if k == "slice":
        v = sorted(c["v"])
        if not v or c["s"] < 1:
            return
        pr = np.zeros((len(v), 7), dtype=int)
        ids = list(range(len(v)))[::-1]
        pr[ids, 0] = v
        out = list(need(R, "getPidsSlice")(pr, list(ids), c["s"], 0, c["m"]))
        expect(out == [i for i, x in zip(ids, v) if x <= c["m"]], "slice {} of {} up to {}", out, v, c["m"])
        return
    if k == "clique":
        n = c["n"]
        E = {(a, b) for x in c["e"] if len(x) == 2 for a, b in (x, x[::-1]) if a != b and max(a, b) < n}
        G = {v: {w for w in range(n) if (v, w) in E} for v in range(n)}
        out = []
        need(R, "bronKerbosch3Plus")(G, out, set(G))
        cl = [set(s) for r in range(3, n + 1) for s in itertools.combinations(range(n), r)
              if all((a, b) in E for a, b in itertools.combinations(s, 2))]
        want = sorted(sorted(s) for s in cl if not any(s < t for t in cl))
        expect(sorted(sorted(s) for s in out) == want, "cliques {} instead of {}", out, want)
        return
    if k == "concat":
        Cand, f = need("skmine.periodic.candidate", "Candidate"), need(R, "prepare_candidate_concats")
        r = c["r"]
        if any(len(x) != 2 or len(x[0]) < r + c["f"] for x in c["o"]) or r < 2 or not c["o"]:
            return
        fr = [c["f"] if len(o) > r else 0 for o, _ in c["o"]]
        cs = [Cand(i, {"occs": list(o), "alpha": e, "p": None}) for i, (o, e) in enumerate(c["o"])]
        new = f(cs, c["p"], r, fr)
        P, t0, E = new.getPattT0E()
        want = [(o[fr[i] + j], e) for j in range(r) for i, (o, e) in enumerate(c["o"])]
        expect([(int(a), int(b)) for a, b in P.getCovSeq(t0, E)] == want, "concatenation gives {} instead of {}", P.getCovSeq(t0, E), want)
        expect([(int(a), int(b)) for a, b in new.getEvOccs()] == want, "occurrences of the candidate {}", new.getEvOccs())
        # one level up: repeat by nesting equal concatenations
        return
    if k == "pool":
        Cand, Pool = need("skmine.periodic.candidate", "Candidate"), need("skmine.periodic.candidate_pool", "CandidatePool")
        if any(len(x) != 4 or x[2] < 2 for x in c["c"]):
            return
        mk = lambda t, p, r, e: Cand(-1, {"occs": [t + i * p for i in range(r)], "alpha": e, "p": p, "cost": 1.0})
        pool = Pool()
        cut = min(c["one"], len(c["c"]))
        pool.addCands([mk(*x) for x in c["c"][:cut]], nkey="A")
        for x in c["c"][cut:]:
            pool.addCands([mk(*x)], nkey="B")
        want = []
        for x in c["c"]:
            if x not in want:
                want.append(x)
        got = pool.getCandidates()
        expect([[q.getT0(), q.getMajorP(), q.getNbOccs(), q.getEvent()] for _, q in sorted(got.items())] == want, "pool holds {}", got)
        expect(list(got) == list(range(len(want))) and all(q.getId() == i for i, q in got.items()), "identifiers")
        na = len([x for x in want if x in c["c"][:cut]])
        expect(pool.getNewCids("A") == list(range(na)) and pool.getNewCids("B") == list(range(na, len(want))), "new candidates")
        for e in {x[3] for x in want}:
            expect(sorted(pool.getCidsForMinorK(e)) == [i for i, x in enumerate(want) if x[3] == e], "candidates of event {}", e)
        M = pool.getPropMat()
        s = list(pool.getSortedPids())
        keys = [tuple(M[i][:3]) for i in s]
        expect(sorted(s) == list(range(len(M))) and keys == sorted(keys), "properties are not sorted")
        expect(sorted({int(x[6]) for x in M}) == [i for i, x in enumerate(want)], "a candidate has no properties")
        for row in M:
            t, p, r, e = want[int(row[6])]
            expect(row[0] == t + row[3] * p and row[1] == p and row[2] == r, "properties {} of {}", row, want[int(row[6])])
        return
    if k == "fold":
        f = need(EX, "extract_cycles_fold")
        o = c["o"]
        if len(o) < 3 or sorted(set(o)) != o:
            return
        D = ds_of(o, c["extra"] + 5, c["more"]).getDetails()
        b = math.log2(D["deltaT"] + 1) - 2
        one = need(CP, "cost_one")(D, 0)
        ch, tr = f(np.array(o), 0, D, b, one, one)
        for x in ch:
            pos = list(x["pos"])
            expect(pos == sorted(set(pos)) and len(pos) >= 3, "chain positions {}", pos)
            q = [int(v) for v in x["occs"]]
            expect(q == [o[i] for i in pos], "chain occurrences {}", q)
            w, p = cyc_cost(q, 0, D)
            expect(x["p"] == p and (w is None or close(x["cost"], w)), "chain {}: period {} cost {}", q, x["p"], x["cost"])
            expect(x["cost"] / len(q) < one, "chain {} costs more than its occurrences", q)
        for dE, dp, co, pos in tr:
            expect(list(pos) == sorted(set(pos)) and len(pos) == 3 and pos[2] < len(o), "triple positions {}", pos)
            q = [o[i] for i in pos]
            d = [q[1] - q[0], q[2] - q[1]]
            expect(dE == abs(d[0] - d[1]) and dp == min(d) and dE < b, "triple {}: {} {}", q, dE, dp)
            expect(co / 3 < one, "triple {} costs more than its occurrences", q)
        return
    if k == "bigfold":
        if c["n"] < 3 or c["p"] < 5:
            return
        f = need(EX, "extract_cycles_fold")
        o = [i * c["p"] for i in range(c["n"])]
        D = ds_of(o, 0, 0).getDetails()
        one = need(CP, "cost_one")(D, 0)
        ch, tr = f(np.array(o), 0, D, math.log2(D["deltaT"] + 1) - 2, one, one, c["p"] + 2)
        seen = set()
        for x in ch:
            expect([int(v) for v in x["occs"]] == [o[i] for i in x["pos"]], "positions {} of chain {}", x["pos"][:3], x["occs"][:3])
            seen.update(x["pos"])
        for x in tr:
            seen.update(x[-1])
        expect(len(seen) >= len(o) - 2 and (len(seen) == len(o) or 0 < len(o) % 1500 < 3), "{} of {} periodic occurrences are in a cycle", len(seen), len(o))
        return
    # cost of trees
    t, E = c["t"], c["E"]
    if len(E) != size(t) - 1:
        return
    P = Pattern(to_nodes(t))
    want = expand(t, 0, [0] + E)
    lo, hi = min(x for x, _ in want), max(x for x, _ in want)
    cnt = {}
    for _, e in want:
        cnt[e] = cnt.get(e, 0) + 1
    n = len(want)
    fr = {"(": 1 / 3, ")": 1 / 3, **{e: v / (3 * n) for e, v in cnt.items()}}
    ev = lambda t: -lg(fr[t[1]]) if t[0] == "ev" else 2 * lg(3) + sum(ev(x) for _, x in t[2])
    expect(close(float(P.codeLengthEvents(fr)), ev(t)), "events cost {} instead of {}", P.codeLengthEvents(fr), ev(t))
    rs = []

    def mn(t):
        if t[0] == "ev":
            return cnt[t[1]]
        v = min(mn(x) for _, x in t[2])
        rs.append(lg(v))
        return v
    mn(t)
    expect(close(float(P.codeLengthR(cnt)), sum(rs)), "repetitions cost {} instead of {}", P.codeLengthR(cnt), sum(rs))
    expect(float(need("skmine.periodic.pattern", "codeLengthE")(E)) == sum(2 + abs(e) for e in E), "corrections cost")
