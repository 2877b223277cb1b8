"""parameters and inputs are accepted exactly on their documented domain, and rejected without side effects"""
import numpy as np
import pandas as pd
import scipy.sparse
from common import *
from skmine.itemsets import SLIM, LCM
from skmine.itemsets.lcm import LCMMax
from skmine.itemsets.slim_classifier import SlimClassifier
from skmine.emerging import MBDLLBorder
from skmine.preprocessing import MDLPDiscretizer
from skmine.feature_extraction import SLIMVectorizer
from skmine.periodic import PeriodicPatternMiner

VALS = [0, 1, 2, 5, -1, -7, 0.0, 0.2, 0.5, 1.0, 1.0000001, 1.5, -0.1, -1e-9, 2.0, 1e9, True, "0.2", None, [1], {"a": 1},
        100, 3.7]


def exhaustive(tier):
    for i in range(len(VALS)):
        for k in ("supp", "suppl", "growth", "lcm", "mbd"):
            yield {"k": k, "i": i}
        yield {"k": "seed", "i": i}
    for i in range(12):
        yield {"k": "D", "i": i}
    for i in range(7):
        yield {"k": "params", "i": i}


def random_case(rng, tier):
    k = rng.choice(["supp", "suppl", "growth", "lcm", "seed", "y", "D"])
    if k == "y":
        return {"k": "y", "y": [rng.choice([0, 1, True, False, 2, -1]) for _ in range(rng.randint(1, 8))],
                "idx": rng.choice([0, 3])}
    if k == "D":
        n, m = rng.randint(1, 5), rng.randint(1, 4)
        rows = [[rng.choice([0, 1, 1.5, True, None, "inf", "-inf", 3]) if rng.random() < 0.15 else rng.randint(0, 1)
                 for _ in range(m)] for _ in range(n)]
        return {"k": "Drand", "rows": rows}
    v = rng.choice([rng.randint(-3, 6), rng.uniform(-0.5, 1.5), rng.uniform(0, 1), rng.randint(-10 ** 9, 10 ** 9)])
    return {"k": k, "v": v}


def nontrivial(c):
    return True


def ok_supp(v, absolute=True):
    if isinstance(v, int):
        return (v >= 1) if absolute else False
    if isinstance(v, float):
        return 0 <= v <= 1
    return None      # TypeError


def verdict(f, *a, **k):
    try:
        f(*a, **k)
    except (ValueError, TypeError) as e:
        return type(e).__name__
    return "ok"


def wants(v, absolute=True):
    o = ok_supp(v, absolute)
    return "TypeError" if o is None else "ok" if o else "ValueError"


def opts():
    import warnings
    return pd.get_option("mode.use_inf_as_na")


def check(c):
    k = c["k"]
    v = VALS[c["i"]] if "i" in c and k in ("supp", "suppl", "growth", "lcm", "mbd", "seed") else c.get("v")
    if k in ("supp", "suppl"):
        f = need("skmine.utils", "_check_min_supp")
        absolute = k == "supp"
        got = verdict(f, v) if absolute else verdict(f, v, accept_absolute=False)
        expect(got == wants(v, absolute), "min_supp={} (absolute allowed: {}): {} instead of {}", v, absolute, got,
               wants(v, absolute))
    elif k == "lcm":
        for cls in (LCM, LCMMax):
            got = verdict(cls(min_supp=v).fit, [[1, 2], [1]])
            expect(got == wants(v), "{}(min_supp={}).fit: {} instead of {}", cls.__name__, v, got, wants(v))
    elif k == "mbd":
        got = verdict(MBDLLBorder, min_supp=v)
        expect(got == wants(v, False), "MBDLLBorder(min_supp={}): {} instead of {}", v, got, wants(v, False))
        if isinstance(v, (int, float)):
            got = verdict(MBDLLBorder, min_growth_rate=v)
            expect(got == ("ok" if v > 1 else "ValueError"), "MBDLLBorder(min_growth_rate={}): {}", v, got)
    elif k == "growth":
        f = need("skmine.utils", "_check_growth_rate")
        if not isinstance(v, (int, float)):
            return
        try:
            r = f(v)
            expect(v > 1 and r == v, "growth rate {} accepted as {}", v, r)
        except ValueError:
            expect(not v > 1, "growth rate {} rejected", v)
    elif k == "seed":
        f = need("skmine.utils", "_check_random_state")
        if v is None:
            expect(f(None) is np.random.mtrand._rand, "None must give the global generator")
            expect(f(np.random) is np.random.mtrand._rand, "np.random must give the global generator")
            r = np.random.RandomState(4)
            expect(f(r) is r, "a RandomState must be used as it is")
        elif isinstance(v, int):
            if 0 <= v < 2 ** 32:
                a, b = f(v), f(v)
                expect(a is not b and list(a.permutation(20)) == list(b.permutation(20)) ==
                       list(np.random.RandomState(v).permutation(20)), "an int seed must give a seeded generator")
                expect(list(f(np.int64(v)).permutation(9)) == list(np.random.RandomState(v).permutation(9)),
                       "numpy integer seed")
        else:
            expect(verdict(f, v) == "ValueError", "seed {} gives {}", v, verdict(f, v))
    elif k == "D":
        f = need("skmine.utils", "_check_D")
        df = pd.DataFrame({"a": [1, 0, 1], "b": [0, 0, 1]}, index=[7, 3, 9])
        cases = [(df, "ok"), (df.values, "ok"), (scipy.sparse.csr_matrix(df.values), "ok"), ([[1, 0]], "TypeError"),
                 (None, "TypeError"), (df["a"], "TypeError"), (df.astype(object), "TypeError"),
                 (pd.DataFrame(index=range(3)), "ValueError"), (df.replace(1, np.nan), "ValueError"),
                 (df.astype(float).replace(1, np.inf), "ValueError"),
                 (df.astype(float).replace(1, -np.inf), "ValueError"), (df.astype(bool), "ok")]
        a, want = cases[c["i"]]
        before = opts()
        got = verdict(f, a)
        expect(got == want, "_check_D case {}: {} instead of {}", c["i"], got, want)
        expect(opts() == before, "pandas option mode.use_inf_as_na changed from {} to {}", before, opts())
        if want == "ok" and not scipy.sparse.issparse(a):
            r = f(a)
            expect(list(r.index) == [0, 1, 2], "index must be positional: {}", list(r.index))
            expect(r.values.tolist() == np.asarray(a).tolist(), "values changed")
            if isinstance(a, pd.DataFrame):
                expect(list(r.columns) == list(a.columns) and list(a.index) == [7, 3, 9], "columns or argument changed")
    elif k == "Drand":
        f = need("skmine.utils", "_check_D")
        rows = [[{"inf": np.inf, "-inf": -np.inf}.get(x, np.nan if x is None else x) if not isinstance(x, float) or True
                 else x for x in r] for r in c["rows"]]
        if len({len(r) for r in rows}) != 1 or not rows[0]:
            return
        df = pd.DataFrame(rows).astype(float)
        bad = not np.isfinite(df.values).all()
        before = opts()
        got = verdict(f, df)
        expect((got == "ValueError") == bad and got in ("ok", "ValueError"), "_check_D({}) gives {}", rows, got)
        expect(opts() == before, "pandas option mode.use_inf_as_na changed from {} to {}", before, opts())
    elif k == "y":
        f = need("skmine.utils", "supervised_to_unsupervised")
        y = np.array([int(v) for v in c["y"]])
        D = pd.DataFrame({"a": range(len(y))}, index=range(c["idx"], c["idx"] + len(y)))
        r = f(D, y)
        expect(list(r["a"]) == [i for i, v in enumerate(y) if v], "rows {} kept for labels {}", list(r["a"]), list(y))
    elif k == "params":
        miner = [lambda: SLIM(), lambda: LCM(), lambda: LCMMax(), lambda: MBDLLBorder(), lambda: MDLPDiscretizer(),
                 lambda: SlimClassifier(), lambda: PeriodicPatternMiner()][c["i"]]()
        p = miner.get_params()
        for name in p:
            keep = {q: w for q, w in miner.get_params().items() if q != name}
            mark = object()
            r = miner.set_params(**{name: mark})
            expect(r is miner, "set_params must return the miner")
            now = miner.get_params()
            expect(now[name] is mark, "{} not set on {}", name, type(miner).__name__)
            expect({q: w for q, w in now.items() if q != name} == keep, "set_params({}) changed other parameters", name)
            miner.set_params(**{name: p[name]})
        expect(miner.get_params() == p, "parameters not restored")
        e = raises(ValueError, miner.set_params, no_such_parameter=1)
        expect(e is not None, "unknown parameter accepted")
        expect(miner.get_params() == p, "rejected parameter changed the others")
        expect(miner.set_params() is miner, "set_params() must return the miner")
