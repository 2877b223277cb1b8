"""covering, rewriting and mining of labelled graphs"""
import math
from common import *
from graphdata import *
from p15 import L, pat_len, gcounts

HANG_IS_FAIL = True
CT = "skmine.graph.graphmdl.code_table"


def rand_pattern(rng, g, multi):
    """part of the graph (so that it has embeddings), renumbered"""
    if not g["e"]:
        return None
    es = [rng.choice(g["e"])]
    for _ in range(rng.randint(0, 3)):
        nb = [e for e in g["e"] if e not in es and {e[0], e[1]} & {x for f in es for x in f[:2]}]
        if nb:
            es.append(rng.choice(nb))
    ns = sorted({x for f in es for x in f[:2]})
    rng.shuffle(ns)
    num = {x: i + 1 for i, x in enumerate(ns)}
    return {"v": [[l for l in g["v"][x - 1] if rng.random() < 0.6] for x in ns], "e": [[num[a], num[b], l] for a, b, l in es]}


def random_case(rng, tier):
    multi = rng.random() < 0.4
    shared = rng.random() < 0.25
    k = rng.choice(["cover", "cover", "fit", "merge"])
    big = rng.random() < 0.3
    g = rand_graph(rng, rng.randint(1, 12 if big else 6), rng.randint(0, 18 if big else 8), multi, shared)
    if k == "fit" and rng.random() < 0.4:     # repeat a small structure, so that patterns pay off
        h = rand_graph(rng, rng.randint(1, 4), rng.randint(0, 4), multi, shared)
        n = len(h["v"])
        g = {"v": [], "e": []}
        for c in range(rng.randint(2, 5)):
            g["v"] += [list(x) for x in h["v"]]
            g["e"] += [[a + c * n, b + c * n, l] for a, b, l in h["e"]]
        if g["e"] and rng.random() < 0.5:
            a, b = rng.randint(1, len(g["v"])), rng.randint(1, len(g["v"]))
            if a != b and not any(x[:2] == [a, b] for x in g["e"]):
                g["e"].append([a, b, g["e"][0][2]])
    c = {"k": k, "multi": multi, "g": g}
    if k == "cover":
        c["p"] = [p for p in (rand_pattern(rng, g, multi) for _ in range(rng.randint(0, 4))) if p]
    elif k == "merge":
        c["p"] = rand_graph(rng, rng.randint(1, 4), rng.randint(0, 4), multi, shared)
        m = min(len(g["v"]), len(c["p"]["v"]))
        r = rng.randint(1, m)
        c["ports"] = [list(x) for x in zip(rng.sample(range(1, len(g["v"]) + 1), r), rng.sample(range(1, len(c["p"]["v"]) + 1), r))]
    return c


def nontrivial(c):
    return len(c["g"]["e"]) > 0


def labels(g):
    return {l for x in g["v"] for l in x} | {e[2] for e in g["e"]}


def preq(s, e=0.5):
    lg = lambda a: math.lgamma(a) / math.log(2)
    return sum(lg(e) - lg(v + e) for v in s) + lg(sum(s) + len(s) * e) - lg(len(s) * e) if s else 0.0


def check_table(ct, G, g0, lc, tol=1e-7):
    """everything a user can read from a covered code table, against the graph it covers"""
    gv, ge = g0
    ge = set(ge)
    rows = ct.rows()
    tots = [sum(gcounts(r.pattern())[0].values()) + sum(gcounts(r.pattern())[1].values()) for r in rows]
    expect(tots == sorted(tots, reverse=True), "rows are not ordered by size {}", tots)
    edges, labs = {}, set()
    for r in rows:
        pv, pe = of_nx(r.pattern())
        all_emb = {tuple(sorted(m.items())) for m in r.embeddings()}
        expect(r.pattern_usage() == len(r.used_embeddings()), "usage {} with {} used embeddings", r.pattern_usage(), len(r.used_embeddings()))
        # greedy: in the order of its embeddings, one is used exactly when no edge of it is covered yet
        used = []
        for m in r.embeddings():
            inv = {p: d for d, p in m.items()}
            img = [(inv[i], inv[j], l) for i, j, l in pe]
            if pe and not any(x in edges for x in img):
                for x in img:
                    edges[x] = 1
                for p, ls in pv.items():
                    if any(p in e[:2] for e in pe):
                        labs |= {(inv[p], l) for l in ls}
                used.append(m)
            elif not pe:
                for d, p in m.items():
                    if any((d, l) not in labs for l in pv[p]):
                        labs |= {(d, l) for l in pv[p]}
                        used.append(m)
        expect([m for m, _ in r.used_embeddings()] == used, "used embeddings {} instead of {}", [m for m, _ in r.used_embeddings()], used)
        for m, ports in r.used_embeddings():
            expect(tuple(sorted(m.items())) in all_emb, "used embedding is no embedding")
            inv = {p: d for d, p in m.items()}
            expect(all(pv[p] <= gv[d] for d, p in m.items()) and all((inv[i], inv[j], l) in ge for i, j, l in pe), "embedding {} does not match", m)
            expect(all(m.get(d) == p for d, p in ports), "ports {} of {}", ports, m)
        pu = {}
        for _, ports in r.used_embeddings():
            for _, p in ports:
                pu[p] = pu.get(p, 0) + 1
        expect(dict(r.pattern_port_usage()) == pu, "port usages {} instead of {}", r.pattern_port_usage(), pu)
    es, vs = {}, {}
    for x in ge:
        if x not in edges:
            es[x[2]] = es.get(x[2], 0) + 1
    for d, ls in gv.items():
        for l in ls:
            if (d, l) not in labs:
                vs[l] = vs.get(l, 0) + 1
    expect(dict(ct._edge_singleton_usage) == es, "edge singletons {} instead of {}", dict(ct._edge_singleton_usage), es)
    expect(dict(ct._vertex_singleton_usage) == vs, "vertex singletons {} instead of {}", dict(ct._vertex_singleton_usage), vs)
    tot = sum(r.pattern_usage() for r in rows) + sum(es.values()) + sum(vs.values())
    for r in rows:
        u = r.pattern_usage()
        expect(close(r.code_length(), math.log2(tot / u) if u else 0.0), "code length {}", r.code_length())
    scl = ct.singleton_code_length()
    expect(set(scl) == set(es) | set(vs), "singletons with a code {}", scl)
    for l, v in scl.items():
        expect(close(v, math.log2(tot / (es[l] if l in es else vs[l]))), "code of singleton {}", l)
    # the rewritten graph denotes the data
    W = ct.rewritten_graph()
    v, e, fresh = {}, [], 0
    ports = {n for n, d in W.nodes(data=True) if "is_Pattern" not in d}
    name = {n: ("d", W.nodes[n]["label"]) for n in ports}
    expect(len(set(name.values())) == len(name), "one port per data node")
    npat = 0
    for n, d in W.nodes(data=True):
        if n in ports:
            expect(W.in_degree(n) > 0 and W.out_degree(n) == 0, "a port without pattern")
            continue
        npat += 1
        out = {int(dd["label"][1:]): name.get(b) for _, b, dd in W.out_edges(n, data=True)}
        expect(None not in out.values() and len(out) == W.out_degree(n), "edges of a pattern vertex go to different ports")
        if d.get("is_singleton"):
            if sorted(out) == [1, 2]:
                pv, pe = {1: frozenset(), 2: frozenset()}, [(1, 2, d["label"])]
            else:
                expect(sorted(out) == [1], "ports of a singleton {}", out)
                pv, pe = {1: frozenset([d["label"]])}, []
        else:
            i = int(d["label"][1:])
            pv, pe = of_nx(rows[i].pattern())
        for p in pv:
            if p not in out:
                fresh += 1
                out[p] = ("f", fresh)
            v[out[p]] = v.get(out[p], frozenset()) | pv[p]
        e += [(out[i], out[j], l) for i, j, l in pe]
    expect(npat == tot, "{} pattern vertices instead of {}", npat, tot)
    alone = {d for d in gv if not gv[d] and not any(d in x[:2] for x in ge)}
    expect(iso(v, e, {d: ls for d, ls in gv.items() if d not in alone}, sorted(ge)), "the rewritten graph does not denote the data: {} {}", v, e)
    # description lengths
    lcs = (lc.vertex_lc(), lc.edges_lc())
    want = 0.0
    for r in rows:
        if r.pattern_usage():
            n = len(r.pattern().nodes)
            want += pat_len(r.pattern(), lcs) + math.log2(n + 1) + math.log2(math.comb(n, len(r.pattern_port_usage())))
    mk = lambda gg: to_nx(gg, False)
    want += sum(pat_len(mk({"v": [[l]], "e": []}), lcs) + 1 for l in vs)
    want += sum(pat_len(mk({"v": [[], []], "e": [[1, 2, l]]}), lcs) + math.log2(3) + 2 for l in es)
    if tot:
        total = ct.compute_total_description_length()
        expect(close(ct.description_length(), want, tol), "code table costs {} instead of {}", ct.description_length(), want)
        w2 = L(npat + 1) + math.log2(len(ports) + 1)
        ur = [r for r in rows if r.pattern_usage()]
        w2 += sum(r.pattern_usage() * math.log2(len(r.pattern_port_usage()) + 1) for r in ur) + sum(vs.values()) + sum(es.values()) * math.log2(3)
        w2 += preq([r.pattern_usage() for r in ur] + list(vs.values()) + list(es.values()))
        w2 += preq([W.in_degree(n) for n in ports])
        w2 += sum(preq(list(r.pattern_port_usage().values())) for r in ur) + sum(preq([x, x]) for x in es.values())
        expect(close(total, want + w2, tol), "total description length {} instead of {}", total, want + w2)
    return es, vs


def check(c):
    if not ok_graph(c["g"], c["multi"]) or not c["g"]["v"]:
        return
    if c["k"] == "merge":
        if not ok_graph(c["p"], c["multi"]) or not c["ports"] or not c["p"]["v"]:
            return
        if len({a for a, _ in c["ports"]}) < len(c["ports"]) or len({b for _, b in c["ports"]}) < len(c["ports"]) \
                or not all(1 <= a <= len(c["g"]["v"]) and 1 <= b <= len(c["p"]["v"]) for a, b in c["ports"]):
            return
        back = {b: a for a, b in c["ports"]}
        num, k = {}, len(c["g"]["v"])
        for i in range(1, len(c["p"]["v"]) + 1):
            if i in back:
                num[i] = back[i]
            else:
                k += 1
                num[i] = k
        e2 = [[num[i], num[j], l] for i, j, l in c["p"]["e"]]
        e = c["g"]["e"] + e2
        ks = [tuple(x) if c["multi"] else tuple(x[:2]) for x in e]
        if len(set(ks)) < len(ks):
            return
        v = [set(x) for x in c["g"]["v"]] + [set() for _ in range(k - len(c["g"]["v"]))]
        for i, x in enumerate(c["p"]["v"], 1):
            v[num[i] - 1] |= set(x)
        Cand = need("skmine.graph.graphmdl.candidate", "Candidate")
        cand = Cand("P0", "P1", [(f"v{a}", f"v{b}") for a, b in c["ports"]])
        cand.first_pattern, cand.second_pattern = to_nx(c["g"], c["multi"]), to_nx(c["p"], c["multi"])
        F = cand.final_pattern()
        fv, fe = of_nx(F)
        expect(type(F) is type(cand.first_pattern), "type of the merged pattern")
        expect({i: frozenset(x) for i, x in enumerate(v, 1)} == fv and sorted(map(tuple, e)) == fe, "merged pattern {} {}", fv, fe)
        expect(of_nx(cand.first_pattern) == of_nx(to_nx(c["g"], c["multi"])) and of_nx(cand.second_pattern) == of_nx(to_nx(c["p"], c["multi"])), "merging changed its patterns")
        expect(cand.final_pattern() is F, "merged again")
        return
    G = to_nx(c["g"], c["multi"])
    g0 = of_nx(G)
    if not labels(c["g"]):
        return
    if {l for x in c["g"]["v"] for l in x} & {e[2] for e in c["g"]["e"]}:
        return        # a label is used either for vertices or for edges
    if c["k"] == "cover":
        LC, CodeTable, Row = need("skmine.graph.graphmdl.label_codes", "LabelCodes"), need(CT, "CodeTable"), need("skmine.graph.graphmdl.code_table_row", "CodeTableRow")
        lc = LC(G)
        ct = CodeTable(lc, G)
        for p in c["p"]:
            if not ok_graph(p, c["multi"]) or not p["e"] or not connected(p) or not labels(p) <= labels(c["g"]):
                continue
            ct.add_row(Row(to_nx(p, c["multi"])))
        ct.cover()
        check_table(ct, G, g0, lc)
        a = ct.compute_total_description_length()
        ct.cover()
        check_table(ct, G, g0, lc)
        expect(close(a, ct.compute_total_description_length(), 1e-7), "covering again changed the description length")
        expect(of_nx(G) == g0, "covering changed the graph")
        return
    MDL = need("skmine.graph.graphmdl.graph_mdl", "GraphMDL")
    m = MDL()
    expect(m.fit(G) is m, "fit returns the miner")
    expect(of_nx(G) == g0, "fit changed the graph")
    expect(m.description_length() <= m.initial_description_length() + 1e-6, "description length {} above the initial {}", m.description_length(), m.initial_description_length())
    ct = m._code_table
    es, vs = check_table(ct, G, g0, m._label_codes)
    expect(close(m.description_length(), ct.compute_total_description_length(), 1e-7), "reported description length {} is not that of the code table {}", m.description_length(), ct.compute_total_description_length())
    pats = m.patterns()
    expect(len(pats) == sum(r.pattern_usage() > 0 for r in ct.rows()) + len(set(es) | set(vs)), "{} patterns", len(pats))
    rows = {id(r.pattern()) for r in ct.rows() if r.pattern_usage()}
    expect(rows <= {id(p) for p in pats}, "a used pattern is not reported")
    d = m.description_length()
    G2 = to_nx(c["g"], c["multi"])
    m2 = MDL().fit(G2)
    expect(close(m2.description_length(), d, 1e-7), "a second run gives {} instead of {}", m2.description_length(), d)
    m.fit(G2)
    expect(close(m.description_length(), d, 1e-7), "refitting gives {} instead of {}", m.description_length(), d)
