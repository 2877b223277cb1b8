"""periodic mining is lossless: patterns and residuals partition the deduplicated events"""
import warnings
from common import *
from seqdata import *
from skmine.periodic import PeriodicPatternMiner


def random_case(rng, tier):
    dt = rng.random() < 0.5
    return {"S": rand_seq(rng, 30 if tier == "quick" else 60), "unit": rng.choice(UNITS), "dt": dt,
            "base": rng.choice([0, 0, 1577836800 * NS, 1577836800 * NS + 1]) if dt else rng.choice([0, 0, 13]),
            "complex": rng.random() < 0.7, "auto": rng.random() < 0.75, "pick": rng.randint(0, 2 ** 6),
            "pre": rand_seq(rng, 20) if rng.random() < 0.3 else None, "predt": rng.random() < 0.5}


def exhaustive(tier):
    import itertools
    for n in (2, 3, 4):
        for ts in itertools.combinations(range(6), n):
            for cx in (False, True):
                yield {"S": [[t, 0] for t in ts], "unit": 1, "dt": False, "base": 0, "complex": cx, "auto": True, "pick": 1}


def nontrivial(c):
    return len(c["S"]) > 5


def check(c):
    if len(c["S"]) < 2 or c["unit"] < 1:
        return
    X = series(c["S"], c["unit"], c["dt"], c["base"])
    want = pairs(c["S"], c["unit"], c["base"])
    before = X.copy(deep=True)
    m = PeriodicPatternMiner(complex=c["complex"], auto_time_scale=c["auto"])
    if c.get("pre") and len(c["pre"]) > 1:        # fitted and used before on another log
        P = series(c["pre"], 1, c["predt"])
        m.fit(P)
        m.transform(P)
        m.get_residuals()
    m.fit(X)
    expect(X.equals(before) and list(X.index) == list(before.index), "fit changed its argument")
    for again in (0, 1):
        rec, lrec = as_pairs(m.reconstruct())
        res, lres = as_pairs(m.get_residuals())
        expect(rec <= want, "reconstruct() invents {}", sorted(rec - want)[:4])
        expect(res <= want, "get_residuals() invents {}", sorted(res - want)[:4])
        expect(not rec & res, "both covered and residual: {}", sorted(rec & res)[:4])
        expect(rec | res == want, "lost: {}", sorted(want - rec - res)[:4])
        expect(len(lrec) == len(rec), "reconstruct() repeats an event")
        expect(len(lres) == len(res), "get_residuals() repeats an event")
        expect([t for t, _ in lrec] == sorted(t for t, _ in lrec), "reconstruct() is not sorted by time")
        expect([t for t, _ in lres] == sorted(t for t, _ in lres), "get_residuals() is not sorted by time")
    n = len(m.miners_.getPatterns())
    e, le = as_pairs(m.reconstruct(sort="event"))
    expect(e == rec and [x for _, x in le] == sorted(x for _, x in le), "reconstruct(sort='event')")
    o, lo = as_pairs(m.reconstruct(sort="construction_order"))
    expect(o == rec, "reconstruct(sort='construction_order') gives other events")
    e, le = as_pairs(m.get_residuals(sort="event"))
    expect(e == res and [x for _, x in le] == sorted(x for _, x in le), "get_residuals(sort='event')")
    if n:
        pick = [i for i in range(n) if c["pick"] >> i & 1] or [n - 1]
        r, lr = as_pairs(m.reconstruct(pick))
        expect(r <= rec and len(lr) == len(r), "the events of patterns {} are not part of those of all patterns", pick)
        parts = set()
        for i in range(n):
            parts |= as_pairs(m.reconstruct([i]))[0]
        expect(parts == rec, "patterns one by one give {} instead of {}", sorted(parts ^ rec)[:4], "all")
        s, ls = as_pairs(m.get_residuals(pick))
        expect(s == want - r, "complement of patterns {}: missing {}, spurious {}", pick, sorted(want - r - s)[:4],
               sorted(s - (want - r))[:4])
        expect(len(ls) == len(s), "get_residuals({}) repeats an event", pick)
    m.transform(X)
