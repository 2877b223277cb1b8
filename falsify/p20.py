"""reading data sets gives back what the file holds, and descriptions are exact"""
import gzip, os, tempfile, datetime
import numpy as np
import pandas as pd
from common import *
from skmine.datasets import fimi, periodic
from skmine.datasets.utils import describe, describe_logs

WORDS = ["a", "b", "xy", "item1", "Z", "10", "7", "cat-dog", "q.r", "é", "NA", "null", "None", "nan", "x#1", "1.50", "007"]


def random_case(rng, tier):
    k = rng.choice(["fimi", "fimi", "any", "periodic", "periodic", "describe", "logs", "home", "ubiq", "named", "tv", "health"])
    if k in ("fimi", "any", "describe", "named"):
        ints = rng.random() < 0.5 or k in ("any", "named")
        D = [[rng.randint(0, 30) if ints else rng.choice(WORDS) for _ in range(rng.randint(1, 6))]
             for _ in range(rng.randint(1, 8))]
        return {"k": k, "D": D, "ints": ints, "sep": rng.choice([" ", ",", ";", "\t", "|"]) if k == "fimi" else " ",
                "trail": rng.random() < 0.3, "nl": rng.random() < 0.7, "zip": rng.random() < 0.5,
                "name": rng.choice(["data.dat", "x.y.num", "file"]), "set": rng.randrange(12)}
    n = rng.randint(1, 9)
    ts = [rng.randint(10 ** 4, 10 ** 6) for _ in range(n)]
    if rng.random() < 0.5:
        ts.sort()
    return {"k": k, "ts": ts, "ev": [rng.choice(WORDS) for _ in range(n)], "dt": rng.random() < 0.5,
            "sep": rng.choice([",", ";", "\t", "|"]), "one": rng.random() < 0.2, "fmt": rng.random() < 0.4,
            "ise": rng.random() < 0.5}


NAMED = [(n, n + ".dat", False) for n in "chess connect mushroom pumsb pumsb_star kosarak retail accidents".split()] + [
    ("iris", "iris.D19.N150.C3.num.gz", True), ("breast", "breast.D20.N699.C2.num", True), ("tictactoe", "ticTacToe.D29.N958.C2.num", True),
    ("mushroom", "mushroom.dat", False)]


def nontrivial(c):
    return len(c.get("D", c.get("ts", []))) > 1


BASE = datetime.datetime(2020, 1, 1)


def check(c):
    k = c["k"]
    d = tempfile.mkdtemp()
    if k == "fimi":
        if not c["D"] or not all(c["D"]):
            return
        if not c["ints"] and c["sep"] in "".join(map(str, sum(c["D"], []))):
            return
        p = os.path.join(d, c["name"])
        text = "\n".join(c["sep"].join(map(str, t)) + (" " if c["trail"] and c["sep"] == " " else "") for t in c["D"])
        with open(p, "w") as f:
            f.write(text + ("\n" if c["nl"] else ""))
        s = fimi.fetch_file(p, separator=c["sep"], int_values=c["ints"])
        expect([list(t) for t in s] == c["D"], "file {} read as {}", text, [list(t) for t in s])
        expect(s.name == os.path.splitext(c["name"])[0], "name {}", s.name)
        if c["ints"]:
            s = fimi.fetch_file(p, separator=c["sep"])
            expect([list(t) for t in s] == [[str(x) for x in t] for t in c["D"]], "items must stay strings: {}",
                   [list(t) for t in s])
    elif k == "any":
        if not c["D"] or not all(c["D"]):
            return
        p = os.path.join(d, c["name"])
        text = "\n".join(" ".join(map(str, t)) + (" " if c["trail"] else "") for t in c["D"]) + "\n"
        if c["zip"]:
            with gzip.open(p, "wt") as f:
                f.write(text)
            s = fimi.fetch_any(c["name"], base_url=fimi.BASE_URL_CGI, data_home=d)
        else:
            with open(p, "w") as f:
                f.write(text)
            s = fimi.fetch_any(c["name"], data_home=d)
        expect([list(t) for t in s] == c["D"], "cached file {} read as {}", text, [list(t) for t in s])
    elif k == "describe":
        if not c["D"]:
            return
        r = describe(pd.Series(c["D"]))
        n, m = len(c["D"]), len({x for t in c["D"] for x in t})
        avg = sum(map(len, c["D"])) / n
        if m == 0:
            return
        expect(r["n_transactions"] == n and r["n_items"] == m, "describe gives {}", r)
        expect(close(float(r["avg_transaction_size"]), avg) and close(float(r["density"]), avg / m),
               "describe gives {} instead of average {} density {}", r, avg, avg / m)
    elif k == "periodic":
        if not c["ts"] or len(c["ts"]) != len(c["ev"]) or c["sep"] in "".join(c["ev"]):
            return
        p = os.path.join(d, "log.csv")
        if c["one"]:
            open(p, "w").write("\n".join("e_" + e for e in c["ev"]) + "\n")
            s = periodic.fetch_file(p, separator=c["sep"])
            if len(c["ev"]) == 1:
                return
            expect(list(s) == ["e_" + e for e in c["ev"]] and list(s.index) == list(range(len(c["ev"]))),
                   "one-column file read as {}", s.to_dict())
            return
        if c["dt"]:
            stamps = [BASE + datetime.timedelta(seconds=t) for t in c["ts"]]
            fmt = "%d/%m/%Y %H:%M:%S" if c["fmt"] else None
            txt = [t.strftime(fmt) if fmt else str(t) for t in stamps]
        else:
            stamps, txt, fmt = [t + 10 ** 7 for t in c["ts"]], None, None
            # eight-digit integers are not dates: month 00 does not exist
            stamps = [(10 ** 9 * 77 if c["fmt"] else 1577836800 * 10 ** 9) + t for t in c["ts"]]
            txt = [str(t) for t in stamps]
        open(p, "w").write("".join("%s%s%s\n" % (a, c["sep"], b) for a, b in zip(txt, c["ev"])))
        s = periodic.fetch_file(p, separator=c["sep"], format=fmt)
        got = [(pd.Timestamp(a).to_pydatetime() if c["dt"] else int(a), str(b)) for a, b in zip(s.index, s)]
        expect(got == list(zip(stamps, c["ev"])), "file read as {} instead of {}", got, list(zip(stamps, c["ev"])))
        expect(s.index.name == "timestamp", "index name {}", s.index.name)
    elif k == "logs":
        if not c["ts"] or len(c["ts"]) != len(c["ev"]):
            return
        idx = [pd.Timestamp(BASE) + pd.Timedelta(seconds=t) for t in c["ts"]] if c["dt"] else c["ts"]
        r = describe_logs(pd.Series(c["ev"], index=idx))
        g = {}
        for t, e in zip(idx, c["ev"]):
            g.setdefault(e, []).append(t)
        expect(r["n_events"] == len(g), "n_events {} instead of {}", r["n_events"], len(g))
        expect(close(float(r["avg_nb_points_per_event"]), len(idx) / len(g)), "points per event {}", r)
        deltas = [max(v) - min(v) for v in g.values()]
        want = sum(deltas, pd.Timedelta(0)) / len(deltas) if c["dt"] else sum(deltas) / len(deltas)
        got = r["avg_delta_per_event"]
        expect(abs(got - want) <= (pd.Timedelta(microseconds=1) if c["dt"] else 1e-6 * max(1, want)),
               "average delta {} instead of {}", got, want)
    elif k == "home":
        from skmine.datasets import get_data_home
        sub = os.path.join(d, "a", "b")
        expect(get_data_home(sub) == sub and os.path.isdir(sub), "data home not created")
        expect(get_data_home(sub) == sub, "data home not found again")
        old = os.environ.get("SCIKIT_MINE_DATA")
        try:
            os.environ["SCIKIT_MINE_DATA"] = os.path.join(d, "env")
            expect(get_data_home() == os.path.join(d, "env") and os.path.isdir(os.path.join(d, "env")), "env data home")
        finally:
            if old is not None:
                os.environ["SCIKIT_MINE_DATA"] = old
    elif k == "ubiq":
        if not c["ts"] or len(c["ts"]) != len(c["ev"]):
            return
        p = os.path.join(d, "1_M_ISE_data.dat" if c["ise"] else "1_M_IS_data.dat")
        open(p, "w").write("### user=1_M\tstart_time=2013-11-29 08:15:57\n" +
                           "".join("%d\t%s\n" % (t, "p_" + e) for t, e in zip(c["ts"], c["ev"])))
        s, user, start = periodic.read_ubiq_user(p)
        expect(user == "1_M" and start == datetime.datetime(2013, 11, 29, 8, 15, 57), "header read as {} {}", user, start)
        want = [start + datetime.timedelta(seconds=t) for t in c["ts"]] if c["ise"] else \
            list(range(1, len(c["ts"]) + 1))
        expect([pd.Timestamp(a).to_pydatetime() if c["ise"] else int(a) for a in s.index] == want and
               list(s) == ["p_" + e for e in c["ev"]], "events read as {}", list(zip(s.index, s)))
    elif k == "named":
        if not c["D"] or not all(c["D"]):
            return
        name, file, gz = NAMED[c["set"]]
        text = "".join(" ".join(map(str, t)) + " \n" for t in c["D"]).encode()
        blob = gzip.compress(text) if gz else text
        real, got = fimi.wget.download, []

        def download(url, out=None, *a, **kw):
            got.append(url)
            with open(out, "wb") as f:
                f.write(blob)
            return out
        fimi.wget.download = download
        try:
            load = getattr(fimi, "fetch_" + name)
            for _ in range(2):      # downloaded, then cached
                s = load(data_home=d)
                expect([list(t) for t in s] == c["D"], "fetch_{} gives {} instead of {}", name, [list(t) for t in s], c["D"])
                expect(len(got) == 1, "downloads {}", got)
            if name in ("mushroom", "iris", "breast", "tictactoe"):
                both = load(data_home=d, return_y=True)
                expect(isinstance(both, tuple) and len(both) == 2, "return_y=True gives a {}", type(both).__name__)
                X, y = both
                if name == "mushroom":
                    wx, wy = [t[1:] for t in c["D"]], [0 if t[0] == 2 else t[0] for t in c["D"]]
                else:
                    wx, wy = [t[:-1] for t in c["D"]], [t[-1] for t in c["D"]]
                expect([list(t) for t in X] == wx and list(y) == wy, "fetch_{} with labels gives {} {}", name, [list(t) for t in X], list(y))
        finally:
            fimi.wget.download = real
    elif k in ("tv", "health"):
        if len(c["ts"]) < 2 or len(c["ts"]) != len(c["ev"]):
            return
        p = os.path.join(d, "source.txt")
        stamps = [BASE + datetime.timedelta(seconds=t) + datetime.timedelta(milliseconds=t % 1000 if k == "health" else 0) for t in c["ts"]]
        ev = ["e, \"" + e + "\"" if t % 3 == 0 and k == "health" else "e " + e for t, e in zip(c["ts"], c["ev"])]
        if k == "tv":
            open(p, "w").write("".join("%s,%s\n" % x for x in zip(stamps, ev)))
        else:
            ev = [e.replace('"', "") for e in ev]
            open(p, "w").write("".join("%s:%03d|%s|77|message\n" % (t.strftime("%Y%m%d-%H:%M:%S"), t.microsecond // 1000, e) for t, e in zip(stamps, ev)))
        attr, load = ("canadianTV_url", periodic.fetch_canadian_tv) if k == "tv" else ("health_app_url", periodic.fetch_health_app)
        old = getattr(periodic, attr)
        setattr(periodic, attr, p)
        try:
            for i in range(2):      # downloaded, then cached
                s = load(data_home=d)
                got = [(pd.Timestamp(a).to_pydatetime(), str(b)) for a, b in zip(s.index, s)]
                expect(got == list(zip(stamps, ev)), "{} read as {} instead of {}", "first" if i == 0 else "cached", got, list(zip(stamps, ev)))
                expect(s.index.name == "timestamp", "index name {}", s.index.name)
                setattr(periodic, attr, os.path.join(d, "gone"))
        finally:
            setattr(periodic, attr, old)
