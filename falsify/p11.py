"""exported patterns, imported in another miner, are the same model"""
import os, tempfile, json
import pandas as pd
from common import *
from seqdata import *
from skmine.periodic import PeriodicPatternMiner

NAMES = [["a", "b", "c", "d"], ["10", "9", "x y", "é\""], ["e'1", "{}", "B", "A"]]


def random_case(rng, tier):
    dt = rng.random() < 0.5
    return {"S": rand_seq(rng, 25), "unit": rng.choice(UNITS), "dt": dt, "complex": rng.random() < 0.7,
            "auto": rng.random() < 0.8, "auto2": rng.random() < 0.8, "names": rng.randrange(3),
            "pre": rand_seq(rng, 12) if rng.random() < 0.3 else None, "again": rng.random() < 0.5,
            "used": rand_seq(rng, 12) if rng.random() < 0.4 else None, "useddt": rng.random() < 0.5, "later": rng.random() < 0.3}


def exhaustive(tier):
    for dt in (False, True):
        yield {"S": [[1, 0], [5, 1]], "unit": 1, "dt": dt, "complex": True, "auto": True, "auto2": True, "names": 0,
               "pre": None, "again": True}
        yield {"S": [[1, 0], [5, 1]], "unit": 1, "dt": dt, "complex": True, "auto": True, "auto2": True, "names": 0,
               "pre": [[i * 10, 0] for i in range(8)], "again": False}
        for used in (False, True):
            yield {"S": [[i * 10, 0] for i in range(10)] + [[3, 1]], "unit": 1, "dt": dt, "complex": True, "auto": True, "auto2": True, "names": 0,
                   "pre": None, "again": True, "used": [[i * 7, 2] for i in range(12)] + [[1, 3]], "useddt": used, "later": True}


def nontrivial(c):
    return len(c["S"]) > 5


def view(m, X):
    df = m.transform(X, dE_sum=False)
    rows = [] if not len(df) else sorted((str(r["t0"]), r["pattern"], int(r["repetition_major"]), str(r["period_major"]),
                                          str([int(getattr(v, "value", v)) for v in r["E"]])) for _, r in df.iterrows())
    return rows, as_pairs(m.reconstruct())[0], as_pairs(m.get_residuals())[0]


def check(c):
    if len(c["S"]) < 2 or c["unit"] < 1:
        return
    names = NAMES[c["names"]]
    X = series(c["S"], c["unit"], c["dt"], names=names)
    m = PeriodicPatternMiner(complex=c["complex"], auto_time_scale=c["auto"])
    d = tempfile.mkdtemp()
    f, g = os.path.join(d, "p.json"), os.path.join(d, "q.json")
    if c["pre"] and len(c["pre"]) > 1:
        P = series(c["pre"], c["unit"], c["dt"], names=names)
        m.fit(P)
        m.transform(P)
    m.fit(X)
    m.export_patterns(f)
    json.load(open(f))
    before = view(m, X)
    expect(before[1] | before[2] == pairs(c["S"], c["unit"], names=names), "exporting changed the model")
    o = PeriodicPatternMiner(complex=c["complex"], auto_time_scale=c["auto2"] if c["auto"] else False)
    u = c.get("used")
    if u and len(u) > 1:        # a miner that holds another model
        o.fit(series(u, c["unit"], c["useddt"], names=names))
    o.import_patterns(f)
    after = view(o, X)
    if c["auto2"] == c["auto"] or not c["auto"]:
        expect(before[0] == after[0], "patterns {} became {}", before[0][:3], after[0][:3])
    expect(before[1] == after[1], "occurrences of the patterns differ: {}", sorted(before[1] ^ after[1])[:4])
    expect(before[2] == after[2], "residuals differ: {}", sorted(before[2] ^ after[2])[:4])
    if c["again"]:
        o.export_patterns(g)
        q = PeriodicPatternMiner(complex=c["complex"], auto_time_scale=c["auto"])
        q.import_patterns(g)
        a2 = view(q, X)
        expect(a2[1:] == before[1:], "exporting an imported model loses events")
    if c.get("later") and u and len(u) > 1:
        U = series(u, c["unit"], c["useddt"], names=names)
        n = PeriodicPatternMiner(complex=c["complex"], auto_time_scale=c["auto"]).fit(U)
        l = PeriodicPatternMiner(complex=c["complex"], auto_time_scale=c["auto"])
        l.import_patterns(f)
        expect(view(l.fit(U), U) == view(n, U), "a model fitted after an import differs from one fitted at once")
