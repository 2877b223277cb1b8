"""time rescaling is exact: any time unit gives the same answer, expressed in the input's unit"""
import numpy as np
import pandas as pd
from common import *
from seqdata import *
from skmine.periodic import PeriodicPatternMiner

SEC = {1: "second", 60: "minute", 3600: "hour", 86400: "day"}


def exhaustive(tier):
    for ts in ([0], [0, 10], [5], [10 ** 9, 2 * 10 ** 9], [60 * NS, 120 * NS], [3600 * NS, 60 * NS], [86400 * NS, 0],
               [86400 * NS, 3600 * NS], [90 * NS, 30 * NS], [10 ** 10, 10 ** 8], [7 * 86400 * NS, -86400 * NS],
               [1000, 10], [-10, 20], [10 ** 18, 2 * 10 ** 18], [600 * NS, 6 * 10 ** 9], [43200 * NS, 86400 * NS]):
        yield {"k": "scale", "ts": ts}


def random_case(rng, tier):
    if rng.random() < 0.6:
        u = rng.choice(UNITS + [600 * NS, 10 ** 10, 12 * 3600 * NS, 100 * NS, 30 * NS])
        lim = min(10 ** 6, (2 ** 62) // u)
        return {"k": "scale", "ts": [rng.randint(-(lim if rng.random() < 0.2 else 0), lim) * u
                                     for _ in range(rng.randint(1, 6))]}
    u = rng.choice([10, 1000, NS, 60 * NS, 3600 * NS, 86400 * NS])
    return {"k": "mine", "S": rand_seq(rng, 25), "unit": u, "dt": rng.random() < 0.5, "complex": rng.random() < 0.6,
            "sum": rng.random() < 0.5, "chron": rng.random() < 0.7}


def nontrivial(c):
    return len(c.get("ts", c.get("S"))) > 1


def check(c):
    if c["k"] == "scale":
        f = need("skmine.periodic.cycles", "autoscale_time_unit")
        if not c["ts"]:
            return
        t = np.array(c["ts"], dtype="int64")
        keep = t.copy()
        out, nz, res, div = f(t, verbose=False)
        expect((t == keep).all(), "argument changed")
        back = [int(v) * 10 ** int(nz) * int(div) for v in out]
        expect(back == c["ts"], "{} rescaled to {} (10^{} x {}) does not multiply back", c["ts"], list(out), nz, div)
        expect(0 <= nz <= 9, "{} digits removed", nz)
        if nz < 9:
            expect(div == 1 and any(v % 10 for v in out.tolist()), "a common factor 10 was left, or divided twice")
            expect(res == "under_second", "resolution {}", res)
        else:
            s = [v // NS for v in c["ts"]]
            best = max(u for u in SEC if all(v % u == 0 for v in s))
            expect(div == best and res == SEC[best], "unit {} ({}) instead of {}", res, div, SEC[best])
        return
    S, u = c["S"], c["unit"]
    if len(S) < 2:
        return
    kw = dict(complex=c["complex"])
    X = series(S, u, c["dt"])
    m = PeriodicPatternMiner(**kw).fit(X)
    df = m.transform(X, dE_sum=c["sum"], chronological_order=c["chron"])
    ref = PeriodicPatternMiner(complex=c["complex"], auto_time_scale=False)
    # the same events with times already in the mining unit
    scale = 10 ** m.n_zeros_ * m.div_nb_sec_
    S2 = pd.Series(X.values, index=pd.Index([t * u // scale for t, _ in S], dtype="int64"))
    ref.fit(S2)
    d2 = ref.transform(S2, dE_sum=c["sum"], chronological_order=c["chron"])
    expect(len(df) == len(d2), "{} patterns instead of {}", len(df), len(d2))
    ns = lambda v: int(pd.Timestamp(v).value) if isinstance(v, pd.Timestamp) else \
        int(pd.Timedelta(v).value) if isinstance(v, (pd.Timedelta, np.timedelta64)) else int(v)
    if not len(df):
        return
    if c["chron"]:
        expect([ns(v) for v in df["t0"]] == sorted(ns(v) for v in df["t0"]), "patterns are not in order of time")
    e = "sum_E" if c["sum"] else "E"
    expect(sorted(df.index) == sorted(d2.index) and "pattern_json_tree" not in df.columns, "rows or columns differ")
    escale = scale if c["dt"] else 1
    for i in df.index:
        a, b = df.loc[i], d2.loc[i]
        expect(ns(a["t0"]) == int(b["t0"]) * scale, "t0 {} instead of {} x {}", a["t0"], b["t0"], scale)
        expect(ns(a["period_major"]) == int(b["period_major"]) * scale, "period {} instead of {} x {}",
               a["period_major"], b["period_major"], scale)
        expect(a["repetition_major"] == b["repetition_major"], "repetitions differ")
        ea = [ns(v) for v in (a[e] if not c["sum"] else [a[e]])]
        eb = [int(v) * escale for v in (b[e] if not c["sum"] else [b[e]])]
        expect(ea == eb, "corrections {} instead of {}", ea, eb)
        if c["dt"]:
            expect(isinstance(a["t0"], pd.Timestamp), "t0 is not a date")
    r1, l1 = as_pairs(m.reconstruct())
    r2, l2 = as_pairs(ref.reconstruct())
    expect(r1 == {(t * scale, x) for t, x in r2}, "reconstruction depends on the unit")
    # pattern i of the table is pattern i of reconstruct
    for i in df.index:
        first = as_pairs(m.reconstruct([i]))[1]
        expect(min(t for t, _ in first) <= ns(df.loc[i, "t0"]) and ns(df.loc[i, "t0"]) in [t for t, _ in first],
               "pattern {} does not start at its t0", i)
