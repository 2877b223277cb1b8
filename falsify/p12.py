"""a pattern tree with corrections denotes exactly its occurrences, and corrections are recovered from them"""
import copy
from common import *
from treedata import *
from skmine.periodic.pattern import Pattern, getEDict


def random_case(rng, tier):
    t = rand_tree(rng, 3)
    while size(t) > 150:
        t = rand_tree(rng, 2)
    n = size(t)
    j = rng.choice([0, 1, 4])
    c = {"t": t, "t0": rng.randint(0, 100), "E": [rng.randint(-j, j) for _ in range(n - 1)], "op": rng.choice(
        ["plain", "merge", "append", "repeat", "fact", "trans", "keys", "fact", "cand"])}
    if c["op"] == "merge":
        c["u"] = rand_tree(rng, 2)
        c["d"] = rng.randint(0, 9)
    if c["op"] in ("append", "repeat", "trans"):
        c["x"], c["d"] = rng.randint(0, 3) if c["op"] != "repeat" else rng.randint(2, 3), rng.randint(0, 30)
    if c["op"] in ("fact", "cand"):
        k = rng.randint(2, 3)
        r, p = rng.randint(2, 3), rng.randint(1, 9)
        c["t"] = [rng.randint(2, 3), rng.randint(10, 40),
                  [[0 if i == 0 else rng.randint(0, 5), [r, p, [[0, rng.choice([["ev", i], rand_tree(rng, 1)])]]]]
                   for i in range(k)]]
        c["E"] = [rng.randint(-j, j) for _ in range(size(c["t"]) - 1)]
    return c


def nontrivial(c):
    return size(c["t"]) > 3


def occ(P, t0, E):
    st = P.getOccsStar()
    return list(zip(P.getOccs(st, t0, getEDict(st, E)), [o[1] for o in st]))


def ints(l):
    return [(int(a), b) for a, b in l]


def check(c):
    t, t0, E = c["t"], c["t0"], c["E"]
    n = size(t)
    if len(E) != n - 1:
        return
    P = Pattern(to_nodes(t))
    want = expand(t, t0, [0] + E)
    perfect = expand(t, 0, [0] * n)
    st = P.getOccsStar()
    expect([(o[0], o[1]) for o in st] == perfect, "perfect occurrences {} instead of {}", st, perfect)
    expect(len({o[2] for o in st}) == n, "two occurrences have the same position")
    expect(ints(occ(P, t0, E)) == want, "occurrences {} instead of {}", ints(occ(P, t0, E)), want)
    expect(ints(P.getCovSeq(t0, E)) == want, "covered events {} instead of {}", P.getCovSeq(t0, E), want)
    back = [int(e) for e in P.computeEFromO([o for o, _ in want])]
    expect(back == E, "corrections {} recovered as {}", E, back)
    expect([(o[0], P.nodes[o[1]]["event"]) for o in P.getTimesNidsRefs()] == perfect, "node references differ")
    # counts and summaries
    expect(P.getNbOccs() == n and P.cardO() == n, "{} occurrences counted instead of {}", P.getNbOccs(), n)
    expect(list(P.getEventsMinor(rep=True)) == [e for _, e in perfect], "events in order")
    expect(P.getNbLeaves() == len(leaves(t)) == P.getWidth() and P.getDepth() == depth(t), "depth or width")
    expect(P.getAlphabet() == set(leaves(t)), "alphabet")
    expect(list(P.getCyclePs()) == periods(t) and list(P.getCycleRs()) == periods(t, 0), "periods or repetitions")
    expect(P.getEventsList(add_delimiter=False) == [str(e) for e in leaves(t)], "event list")
    ty = {(True, True): "simple", (False, True): "nested", (True, False): "concat"}.get(
        (depth(t) == 1, len(leaves(t)) == 1), "other")
    expect(P.getTypeStr() == ty, "type {} instead of {}", P.getTypeStr(), ty)
    expect(str(P) == text(t), "printed as {} instead of {}", str(P), text(t))
    if depth(t) > 1 or len(leaves(t)) > 1:
        b = n // t[0]
        expect([int(v) for v in P.getMajorOccs([o for o, _ in want])] == [o for o, _ in want][::b], "major occurrences")
    before = copy.deepcopy(P.nodes)
    Q = P.copy()
    op = c["op"]
    if op == "merge":
        Q.merge(Pattern(to_nodes(c["u"])), c["d"])
        v = [t[0], t[1], t[2] + [[c["d"], c["u"]]]]
    elif op == "append":
        Q.append(c["x"], c["d"])
        v = [t[0], t[1], t[2] + [[c["d"], ["ev", c["x"]]]]]
    elif op == "repeat":
        Q.repeat(c["x"], c["d"])
        v = [c["x"], c["d"], [[0, t]]]
    elif op == "trans":
        nodes, off, m = P.getTranslatedNodes(c["x"] + 1)
        expect(off == c["x"] + 1 + len(P.nodes) and sorted(m.values()) == list(range(c["x"] + 1, off)), "translated ids")
        expect(set(nodes) == set(m.values()), "translated nodes")
        inv = {b: a for a, b in m.items()}
        for k, nd in nodes.items():
            o = P.nodes[inv[k]]
            tr = dict(nd)
            tr["parent"] = inv.get(nd["parent"])
            if "children" in nd:
                tr["children"] = [(inv[a], d) for a, d in nd["children"]]
            expect(tr == o, "node {} became {}", o, nd)
        v = None
    elif op == "fact":
        nf = P.canFactorize()
        for x in nf:
            Q = P.copy()
            Q.factorizeTree(x)
            a = sorted((int(z[0]), z[1]) for z in Q.getOccsStar())
            expect(a == sorted(perfect), "factorising node {} of {} changes the occurrences", x, text(t))
            kids = {k for nd in Q.nodes.values() for k, _ in nd.get("children", [])}
            expect(kids | {0} == set(Q.nodes), "factorised tree has dangling nodes")
            for k, nd in Q.nodes.items():
                for a, _ in nd.get("children", []):
                    expect(Q.nodes[a]["parent"] == k, "wrong parent after factorising")
        v = None
    elif op == "cand":
        Cand = need("skmine.periodic.candidate", "Candidate")
        cd = Cand(-1, P.copy(), [o for o, _ in want], list(E))
        for f in cd.factorizePattern():
            p, a0, e = f.getPattT0E()
            expect(sorted(ints(p.getCovSeq(a0, e))) == sorted(want), "factorised candidate covers other events")
            expect(sorted(ints(f.getEvOccs())) == sorted(want), "factorised candidate lists other events")
        v = None
    else:
        for o in st:
            nid = P.getNidFromKey(o[2])
            expect(P.isLeaf(nid) and P.nodes[nid]["event"] == o[1], "position {} does not lead to its event", o[2])
        for nid in P.nodes:
            k = P.getKeyFromNid(nid)
            expect(P.getNidFromKey(k) == nid, "node {} has key {} of node {}", nid, k, P.getNidFromKey(k))
        v = None
    expect(P.nodes == before, "{} changed the original pattern", op)
    if v is not None:
        got = [(int(o[0]), o[1]) for o in Q.getOccsStar()]
        expect(got == expand(v, 0, [0] * size(v)), "after {}: {} instead of {}", op, got, expand(v, 0, [0] * size(v)))
        expect(str(Q) == text(v), "after {}: {} instead of {}", op, str(Q), text(v))
