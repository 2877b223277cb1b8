"""random pattern trees and an independent reading of them"""


def rand_tree(rng, depth=3, leaf_p=0.4):
    """nested form: ["ev", e] or [r, p, [[d, child], ...]]"""
    def node(k):
        n = rng.choice([1, 1, 2, 2, 3])
        ch = []
        for i in range(n):
            sub = ["ev", rng.randrange(4)] if k <= 1 or rng.random() < leaf_p else node(k - 1)
            ch.append([0 if i == 0 else rng.randint(0, 9), sub])
        return [rng.randint(2, 4), rng.randint(1, 20), ch]
    return node(rng.randint(1, depth))


def to_nodes(t, order=None):
    """node dictionary as the package stores it; ids in an order given by rng if any"""
    nodes, cnt = {}, [0]

    def add(t, parent):
        nid = cnt[0]
        cnt[0] += 1
        if t[0] == "ev":
            nodes[nid] = {"parent": parent, "event": t[1]}
        else:
            nodes[nid] = {"parent": parent, "r": t[0], "p": t[1], "children": []}
            for d, c in t[2]:
                nodes[nid]["children"].append((add(c, nid), d))
        return nid
    add(t, None)
    return nodes


def size(t):
    return 1 if t[0] == "ev" else t[0] * sum(size(c) for _, c in t[2])


def expand(t, t0, E):
    """[(time, event)] in depth-first order; E[k] shifts occurrence k relative to its reference occurrence"""
    out = []

    def ex(t, base):
        if t[0] == "ev":
            v = base + E[len(out)]
            out.append((v, t[1]))
            return v
        first = prev_rep = None
        for i in range(t[0]):
            prev = None
            for j, (d, c) in enumerate(t[2]):
                b = (base if i == 0 else prev_rep + t[1]) if j == 0 else prev + d
                v = ex(c, b)
                if j == 0:
                    if i == 0:
                        first = v
                    prev_rep = v
                prev = v
        return first
    ex(t, t0)
    return out


def leaves(t):
    return [t[1]] if t[0] == "ev" else [e for _, c in t[2] for e in leaves(c)]


def depth(t):
    return 0 if t[0] == "ev" else 1 + max(depth(c) for _, c in t[2])


def periods(t, i=1):
    return [] if t[0] == "ev" else [t[i]] + [p for _, c in t[2] for p in periods(c, i)]


def text(t):
    if t[0] == "ev":
        return str(t[1])
    s = ""
    for j, (d, c) in enumerate(t[2]):
        s += (" [d=%s] " % d if j else "") + text(c)
    return "[r=%s p=%s](%s)" % (t[0], t[1], s)
