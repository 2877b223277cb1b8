"""labelled directed graphs: generators, brute force matching"""
import itertools
import networkx as nx

VL = ["X", "Y", "Z"]
EL = ["a", "b"]


def rand_graph(rng, n, m, multi, shared=False, plain=0.3):
    """{"v": [[labels]...], "e": [[i, j, l]...]} nodes 1..n"""
    vl, el = (["1", "2", "a"], ["a", "1"]) if shared else (VL, EL)
    v = [[] if rng.random() < plain else sorted(rng.sample(vl, 2)) if rng.random() < 0.2 else [rng.choice(vl)] for _ in range(n)]
    e, seen = [], set()
    for _ in range(m):
        i, j = rng.randint(1, n), rng.randint(1, n)
        l = rng.choice(el)
        if i == j or (i, j, l) in seen or (not multi and any((i, j, x) in seen for x in el)):
            continue
        seen.add((i, j, l))
        e.append([i, j, l])
    return {"v": v, "e": e}


def ok_graph(g, multi):
    n = len(g["v"])
    ks = [tuple(x) if multi else tuple(x[:2]) for x in g["e"]]
    return all(len(x) == 3 and 1 <= x[0] <= n and 1 <= x[1] <= n and x[0] != x[1] for x in g["e"]) and len(set(ks)) == len(ks)


def to_nx(g, multi):
    G = nx.MultiDiGraph() if multi else nx.DiGraph()
    for i, l in enumerate(g["v"], 1):
        if not l:
            G.add_node(i)
        else:
            G.add_node(i, label=l[0] if len(l) == 1 else tuple(l))
    for i, j, l in g["e"]:
        G.add_edge(i, j, label=l)
    return G


def of_nx(G):
    """node labels and labelled edges"""
    lab = lambda d: frozenset() if "label" not in d else frozenset([d["label"]] if isinstance(d["label"], str) else d["label"])
    return {v: lab(d) for v, d in G.nodes(data=True)}, sorted((i, j, d["label"]) for i, j, d in G.edges(data=True))


def embeddings(P, G):
    """all injective label-preserving maps, as dictionaries graph node -> pattern node"""
    (pv, pe), (gv, ge) = of_nx(P), of_nx(G)
    ge = set(ge)
    ps = list(pv)
    out = []
    for c in itertools.permutations(gv, len(ps)):
        m = dict(zip(ps, c))
        if all(pv[p] <= gv[m[p]] for p in ps) and all((m[i], m[j], l) in ge for i, j, l in pe):
            out.append({g: p for p, g in m.items()})
    return out


def connected(g):
    G = nx.Graph()
    G.add_nodes_from(range(1, len(g["v"]) + 1))
    G.add_edges_from([x[:2] for x in g["e"]])
    return len(g["v"]) > 0 and nx.is_connected(G)


def iso(v1, e1, v2, e2):
    """labelled graphs (node labels as sets, labelled edges) are the same up to names"""
    if sorted(map(sorted, v1.values())) != sorted(map(sorted, v2.values())) or len(e1) != len(e2):
        return False
    mk = lambda v, e: (lambda G: ([G.add_node(x, l=l) for x, l in v.items()],
                                  [G.add_edge(i, j, l=frozenset(k for a, b, k in e if (a, b) == (i, j))) for i, j, _ in e], G)[2])(nx.DiGraph())
    return nx.is_isomorphic(mk(v1, e1), mk(v2, e2), node_match=lambda a, b: a["l"] == b["l"], edge_match=lambda a, b: a["l"] == b["l"])
