"""code lengths and matching of graph patterns"""
import math
from common import *
from graphdata import *

U = "skmine.graph.graphmdl.utils"


def random_case(rng, tier):
    k = rng.choice(["num", "seq", "labels", "labels", "emb", "emb", "row", "pairs"])
    if k == "num":
        return {"k": k, "n": rng.randint(0, 40), "m": rng.randint(0, 40), "x": rng.randint(0, 5000)}
    if k == "seq":
        return {"k": k, "s": [rng.randint(0, 6) for _ in range(rng.randint(1, 6))], "e": rng.choice([0.5, 1, 0.25])}
    if k == "row":
        n = rng.randint(1, 5)
        return {"k": k, "u": rng.randint(0, 5), "t": rng.randint(1, 20), "p": [[i, rng.randint(0, 4)] for i in range(1, rng.randint(1, n) + 1)],
                "g": rand_graph(rng, n, 5, False)}
    if k == "pairs":
        return {"k": k, "l": rng.sample(range(20), rng.randint(0, 6))}
    multi = rng.random() < 0.4
    c = {"k": k, "g": rand_graph(rng, rng.randint(1, 6), rng.randint(0, 10), multi, rng.random() < 0.3), "multi": multi}
    if k == "emb":
        c["p"] = rand_graph(rng, rng.randint(1, 3), rng.randint(0, 3), multi, c["g"]["v"] and any("1" in x for x in c["g"]["v"]), 0.5)
    return c


def exhaustive(tier):
    for n in range(0, 31):
        for m in range(0, n + 2):
            yield {"k": "num", "n": n, "m": m, "x": n * 31 + m}


def nontrivial(c):
    return c["k"] != "num" or c["x"] > 1


def L(x):
    """universal code length of an integer >= 1 (Elias)"""
    b = x.bit_length() - 1
    return b + 2 * ((b + 1).bit_length() - 1) + 1


def gcounts(G):
    v, e = of_nx(G)
    cv, ce = {}, {}
    for ls in v.values():
        for l in ls:
            cv[l] = cv.get(l, 0) + 1
    for _, _, l in e:
        ce[l] = ce.get(l, 0) + 1
    return cv, ce, len(v)


def pat_len(G, lc):
    cv, ce, n = gcounts(G)
    t = math.log2(len(lc[0]) + len(lc[1])) + L(n + 1)
    t += sum(lc[0][l] + L(k + 1) + math.log2(math.comb(n, k)) for l, k in cv.items())
    return t + sum(lc[1][l] + L(k + 1) + math.log2(math.comb(n * n, k)) for l, k in ce.items())


def check(c):
    k = c["k"]
    if k == "num":
        binomial, uie, uie0 = need(U, "binomial"), need(U, "universal_integer_encoding"), need(U, "universal_integer_encoding_with0")
        n, m, x = c["n"], c["m"], c["x"]
        if n < 0 or m < 0 or x < 0:
            return
        if m > n:
            expect(raises(ValueError, binomial, n, m), "binomial({}, {}) is accepted", n, m)
        else:
            expect(close(binomial(n, m), math.comb(n, m)), "binomial({}, {}) = {}", n, m, binomial(n, m))
        expect(uie0(x) == L(x + 1), "code length of {} is {}", x, uie0(x))
        if x:
            expect(uie(x) == L(x), "code length of {} is {}", x, uie(x))
        else:
            expect(raises(ValueError, uie, 0), "code length of 0 is accepted")
        expect(raises(ValueError, uie0, -1 - x), "code length of a negative number is accepted")
        log2 = need(U, "log2")
        if m and m <= n:
            expect(close(log2(m, n), math.log2(n) - math.log2(m)), "log2({}, {})", m, n)
        return
    if k == "seq":
        if not c["s"] or any(v < 0 for v in c["s"]) or not c["e"] > 0:
            return
        f = need(U, "prequential_code")
        e, s = c["e"], c["s"]
        # closed form with gamma functions
        lg = lambda a: math.lgamma(a) / math.log(2)
        want = sum(lg(e) - lg(v + e) for v in s) + lg(sum(s) + len(s) * e) - lg(len(s) * e)
        expect(close(f(s, e), want, 1e-7), "prequential code of {} is {} instead of {}", s, f(s, e), want)
        return
    if k == "pairs":
        if len(set(c["l"])) != len(c["l"]):
            return
        l = c["l"]
        got = need(U, "get_port_candidates")(list(l))
        expect(sorted(got) == sorted((a, b) for i, a in enumerate(l) for b in l[i + 1:]), "pairs {}", got)
        d = {a: i for i, a in enumerate(l)}
        for a in l:
            expect(need(U, "get_key_from_value")(d, d[a]) == a, "key of a value")
        return
    if k == "row":
        if not ok_graph(c["g"], False) or not c["g"]["v"] or c["u"] > c["t"] or any(len(x) != 2 or not 1 <= x[0] <= len(c["g"]["v"]) for x in c["p"]):
            return
        Row, LC = need("skmine.graph.graphmdl.code_table_row", "CodeTableRow"), need("skmine.graph.graphmdl.label_codes", "LabelCodes")
        G = to_nx(c["g"], False)
        pu = dict(map(tuple, c["p"]))
        row = Row(G, c["u"], dict(pu))
        row.compute_code_length(c["t"])
        expect(close(row.code_length(), math.log2(c["t"] / c["u"]) if c["u"] else 0.0), "code length {}", row.code_length())
        t = sum(pu.values())
        expect(set(row.port_code_length()) == set(pu), "ports with a code")
        for p, u in pu.items():
            expect(close(row.port_code_length()[p], math.log2(t / u) if u else 0.0), "code of port {}", p)
        if t and all(pu.values()):
            expect(close(sum(2 ** -v for v in row.port_code_length().values()), 1), "port codes are not a complete code")
        if gcounts(G)[0] or gcounts(G)[1]:
            lc = LC(G)
            row.compute_description_length(lc)
            n = len(G.nodes)
            want = pat_len(G, (lc.vertex_lc(), lc.edges_lc())) + math.log2(n + 1) + math.log2(math.comb(n, len(pu)))
            expect(close(row.description_length(), want), "description length {} instead of {}", row.description_length(), want)
        return
    if not ok_graph(c["g"], c["multi"]) or not c["g"]["v"]:
        return
    G = to_nx(c["g"], c["multi"])
    cv, ce, n = gcounts(G)
    if k == "labels":
        expect(need(U, "count_vertex_label")(G) == cv, "vertex labels {}", need(U, "count_vertex_label")(G))
        expect(need(U, "count_edge_label")(G) == ce, "edge labels {}", need(U, "count_edge_label")(G))
        tot = sum(cv.values()) + sum(ce.values())
        expect(need(U, "get_total_label")(G) == tot, "{} labels instead of {}", need(U, "get_total_label")(G), tot)
        if not tot:
            return
        lc = need("skmine.graph.graphmdl.label_codes", "LabelCodes")(G)
        a, b = lc.vertex_lc(), lc.edges_lc()
        expect(lc.total_label() == tot and set(a) == set(cv) and set(b) == set(ce), "labels with a code")
        expect(all(close(a[l], math.log2(tot / cv[l])) for l in cv) and all(close(b[l], math.log2(tot / ce[l])) for l in ce), "code lengths {} {}", a, b)
        expect(close(sum(2 ** -v for v in a.values()) + sum(2 ** -v for v in b.values()), 1), "label codes are not a complete code")
        expect(close(lc.encode(G), pat_len(G, (a, b))), "structure costs {} instead of {}", lc.encode(G), pat_len(G, (a, b)))
        for l in cv:
            w = to_nx({"v": [[l]], "e": []}, c["multi"])
            expect(close(lc.encode_singleton_vertex(l), pat_len(w, (a, b))), "vertex singleton {}", l)
            expect(need(U, "is_vertex_singleton")(w), "not a singleton")
        for l in ce:
            w = to_nx({"v": [[], []], "e": [[1, 2, l]]}, c["multi"])
            expect(close(lc.encode_singleton_edge(l), pat_len(w, (a, b))), "edge singleton {}", l)
            expect(need(U, "is_edge_singleton")(w), "not a singleton")
        return
    if not ok_graph(c["p"], c["multi"]) or not c["p"]["v"]:
        return
    P = to_nx(c["p"], c["multi"])
    got = need(U, "get_embeddings")(P, G)
    want = embeddings(P, G)
    key = lambda m: sorted(m.items())
    expect(sorted(map(key, got)) == sorted(map(key, want)), "embeddings {} instead of {}", got, want)
    for m in want:
        ed = need(U, "get_edge_in_embedding")(m, P)
        expect(ed == {(i, j) for i, j, _ in c["p"]["e"]}, "edges of an embedding {}", ed)
    sup = need(U, "get_support")(got)
    true = min(len({g for m in want for g, q in m.items() if q == p}) for p in P.nodes) if want else 0
    if sup != true:
        old = min(len({g for i, m in enumerate(got) for g, q in m.items() if q == p and i}) for p in P.nodes)
        expect(sup == old, "support {} instead of {}", sup, true)
        expect(False, "get_support ignores the first embedding: {} instead of {}", sup, true)
