"""SLIM is lossless: the code table covers every item occurrence exactly once and reconstructs the data"""
import os, tempfile
from common import *
from itemdata import *
from slimref import *
from skmine.itemsets import SLIM


def exhaustive(tier):
    for D in small_D(3, 3):
        for pr in (False, True):
            yield {"D": D, "ty": "str", "pruning": pr, "extra": [], "updates": [], "mode": "list"}


def random_case(rng, tier):
    D = rand_D(rng, 14 if tier == "quick" else 30, 8, big=0.03)
    m = max([x for t in D for x in t]) + 1
    ups = []
    if rng.random() < 0.35:
        for _ in range(rng.randint(1, 3)):
            ups.append(rng.sample(range(m), rng.randint(1, min(m, 4))))
    mode = rng.choice(["list", "list", "list", "tab"])
    ty = rng.choice(["int", "str", "joined", "word"])
    if rng.random() < 0.15 and ups == []:
        ups = None    # bounded running time: stops after the first round
    return {"D": D, "ty": ty, "pruning": rng.random() < 0.6, "updates": ups, "mode": mode,
            "extra": rng.sample(range(m, m + 3), rng.randint(1, 2)) if rng.random() < 0.2 else [],
            "pre": rand_D(rng, 10, 8) if rng.random() < 0.3 else None}


def nontrivial(c):
    return len(c["D"]) > 1 and max(map(len, c["D"])) > 1


def check(c):
    D0 = c["D"]
    if not any(D0):
        return
    ty = "str" if c["mode"] == "tab" else c["ty"]
    D = label(D0, ty)
    extra = label([c["extra"]], "str" if ty == "joined" else ty)[0] if c["extra"] else None
    s = SLIM(pruning=c["pruning"], items=extra, max_time=0 if c["updates"] is None else -1)
    if c.get("pre") and any(c["pre"]):       # a model fitted before on other data
        P = label(c["pre"], ty)
        s.fit(tabular(P) if c["mode"] == "tab" else P)
        s.transform([])
    s.fit(tabular(D) if c["mode"] == "tab" else D)
    data = [set(t) for t in D]
    verify(s, data, extra)
    for u in c["updates"] or []:
        X = frozenset(label([u], "str" if ty == "joined" else ty)[0])
        if not X or not X <= set().union(*data):
            continue
        s.update(candidate=X)
        verify(s, data, extra)


def verify(s, data, extra):
    ct = codetable(s)
    check_exact_cover(ct, data, extra)
    rec = [list(x) for x in s.reconstruct()]
    want = [sorted(t) for t in data]
    while want and not want[-1]:
        want.pop()
    expect(rec == want, "reconstruct() gives {}, the data is {}", rec, want)
    # the different views of one code table agree
    for sing in (True, False):
        for null in (True, False):
            exp = [(sorted(X), len(t)) for X, t in ct if len(t) >= null and (sing or len(X) > 1)]
            v = s.transform([], singletons=sing, drop_null_usage=null)
            got = [(list(i), int(u)) for i, u in zip(v["itemset"], v["usage"])]
            expect(got == exp, "transform(singletons={}, drop_null_usage={}) gives {} instead of {}", sing, null,
                   got, exp)
    v = s.transform([], lexicographic_order=False)
    got = [(frozenset(i), int(u)) for i, u in zip(v["itemset"], v["usage"])]
    expect(got == [(X, len(t)) for X, t in ct if t], "transform(lexicographic_order=False) gives {}", got)
    fd, path = tempfile.mkstemp()
    os.close(fd)
    for tids in (False, True):
        s.transform([], out=path, return_tids=tids)
        lines = open(path).read().split("\n")
        exp = []
        for X, t in ct:
            if t:
                exp.append("(%d) %s" % (len(t), " ".join(map(str, sorted(X)))))
                if tids:
                    exp.append(" ".join(map(str, sorted(t))))
        expect(lines == exp + [""], "file written by transform(out=...) holds {} instead of {}", lines, exp)
    os.unlink(path)
