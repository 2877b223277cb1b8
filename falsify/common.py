"""Search for a failing input of one property on the real code of /repo.

Runs under the repository's own interpreter.  A falsifier module defines
    exhaustive(tier) -> iterable of JSON-able cases     (small scope, enumerated completely, optional)
    random_case(rng, tier) -> one JSON-able case        (optional)
    check(case)                                         raises Fail when the property is broken on it
    nontrivial(case) -> bool                            (optional)
    shrink(case) -> iterable of smaller cases           (optional; a generic one is provided)
Only behaviour of /repo can make a case fail: Fail raised by the oracle, or an exception that passed through a
frame of /repo on an input the property covers.  Anything else is an error of the harness, never a violation.
"""
import importlib
import itertools
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import tempfile
import time
import traceback
import warnings

warnings.filterwarnings("ignore")
REPO = os.environ.get("VERIF_REPO", "/repo")


class Fail(Exception):
    pass


class Skip(Exception):
    """the case exercises an internal function that the current source no longer has"""


class Hang(BaseException):
    pass


def need(mod, *names):
    """internal functions by name; a source that renamed them cannot be checked at that level"""
    try:
        m = importlib.import_module(mod)
    except ImportError:
        raise Skip(mod)
    out = []
    for n in names:
        o = m
        for part in n.split("."):
            if not hasattr(o, part):
                raise Skip(f"{mod}.{n}")
            o = getattr(o, part)
        out.append(o)
    return out[0] if len(out) == 1 else out


def expect(cond, msg, *args):
    if not cond:
        raise Fail(msg.format(*[short(a) for a in args]) if args else msg)


def short(a, n=300):
    s = repr(a)
    return s if len(s) <= n else s[:n] + "..."


def close(a, b, tol=1e-9):
    if a == b:
        return True
    try:
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    except TypeError:
        return False


def raises(exc, f, *a, **k):
    """exception type name or None"""
    try:
        f(*a, **k)
    except exc as e:
        return e
    return None


def _alarm(*_):
    raise Hang()


def through_repo(tb):
    return any(os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep)
               for f in traceback.extract_tb(tb))


def judge(mod, case, limit=60):
    """None | ('fail', text) | ('skip', text) | ('harness', text)"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        mod.check(case)
        return None
    except Fail as e:
        return ("fail", str(e))
    except Skip as e:
        return ("skip", str(e))
    except Hang:
        return ("fail", f"did not terminate within {limit} s") if getattr(mod, "HANG_IS_FAIL", False) \
            else ("skip", "slow")
    except (MemoryError, KeyboardInterrupt):
        raise
    except BaseException as e:
        et, ev, tb = sys.exc_info()
        if through_repo(tb) and not isinstance(e, (SystemExit,)):
            last = traceback.extract_tb(tb)[-1]
            return ("fail", f"raised {type(e).__name__}: {str(e)[:300]} "
                            f"[{os.path.basename(last.filename)}:{last.lineno} in {last.name}]")
        return ("harness", "".join(traceback.format_exception(et, ev, tb))[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def default_shrink(case):
    """drop list elements anywhere, replace ints by smaller ones"""
    if isinstance(case, list):
        w = len(case) // 2
        while w > 1:
            for i in range(0, len(case), w):
                yield case[:i] + case[i + w:]
            w //= 2
        for i in range(len(case)):
            yield case[:i] + case[i + 1:]
        for i, x in enumerate(case):
            for y in default_shrink(x):
                yield case[:i] + [y] + case[i + 1:]
    elif isinstance(case, dict):
        for k in case:
            for y in default_shrink(case[k]):
                yield {**case, k: y}


def minimise(mod, case, budget=20.0, known=()):
    t0, best = time.time(), case
    shr = getattr(mod, "shrink", default_shrink)
    improved = True
    while improved and time.time() - t0 < budget:
        improved = False
        for c in shr(best):
            if time.time() - t0 > budget:
                break
            try:
                r = judge(mod, c, 10)
            except BaseException:
                continue
            if r is not None and r[0] == "fail" and "raised" not in r[1] and "terminate" not in r[1] \
                    and not any(kf.get("match") and kf["match"] in r[1] for kf in known):
                best, improved = c, True
                break
    return best


def worker(args):
    name, tier, seed, k, n, budget, maxcases, known = args
    sys.setrecursionlimit(5000)
    devnull = open(os.devnull, "w")
    scratch = tempfile.mkdtemp(prefix="verif-")
    os.chdir(scratch)
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = scratch
    real_out, sys.stdout, sys.stderr = sys.stdout, devnull, devnull
    out = {"evaluations": 0, "nontrivial": 0, "exhaustive": 0, "exhausted": True, "skipped": 0, "skips": [],
           "harness": [], "fail": None, "samples": [], "digests": []}
    try:
        try:
            mod = importlib.import_module(name)
        except BaseException as e:
            et, ev, tb = sys.exc_info()
            out["harness"].append("import: " + "".join(traceback.format_exception(et, ev, tb))[-1500:])
            return out
        t0 = time.time()
        nontriv = getattr(mod, "nontrivial", lambda c: True)
        rng = random.Random(f"{seed}-{k}-{name}")

        def stream():
            if hasattr(mod, "exhaustive"):
                for i, c in enumerate(mod.exhaustive(tier)):
                    if i % n == k:
                        yield True, c
            if hasattr(mod, "random_case"):
                while True:
                    yield False, mod.random_case(rng, tier)
        seen = set()
        for ex, c in stream():
            if time.time() - t0 > budget * (0.6 if ex and hasattr(mod, "random_case") else 1.0):
                if ex:
                    out["exhausted"] = False
                    if hasattr(mod, "random_case") and time.time() - t0 <= budget:
                        # leave the enumeration, go on with random cases
                        while time.time() - t0 <= budget:
                            cc = mod.random_case(rng, tier)
                            if one(mod, cc, out, seen, nontriv, known, False):
                                return out
                break
            if out["evaluations"] >= maxcases:
                break
            if one(mod, c, out, seen, nontriv, known, ex):
                return out
        return out
    finally:
        sys.stdout = real_out
        out["digests"] = len(set(out["digests"]))
        import shutil
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


def one(mod, c, out, seen, nontriv, known, ex):
    js = json.dumps(c, sort_keys=True)
    c = json.loads(js)
    r = judge(mod, c)
    out["evaluations"] += 1
    out["exhaustive"] += ex
    if r is None or r[0] == "fail":
        try:
            nt = nontriv(c)
        except Exception:
            nt = False
        if nt:
            h = hash(js)
            if h not in seen:
                seen.add(h)
                out["nontrivial"] += 1
            if len(out["samples"]) < 2 and len(js) < 1500:
                out["samples"].append(c)
    if r is None:
        return False
    if r[0] == "fail":
        for kf in known:
            if kf.get("case") == c or (kf.get("match") and kf["match"] in r[1]):
                out.setdefault("known", []).append(kf["what"])
                return False
        small = minimise(mod, c, known=known)
        rs = judge(mod, small)
        if rs is None or rs[0] != "fail":
            small, rs = c, r
        out["fail"] = {"case": small, "message": rs[1]}
        return True
    if r[0] == "skip":
        out["skipped"] += 1
        if r[1] not in out["skips"] and len(out["skips"]) < 10:
            out["skips"].append(r[1])
    else:
        out["harness"].append(r[1])
        if len(out["harness"]) > 3:
            return True
    return False


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("module")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=30)
    ap.add_argument("--procs", type=int, default=8)
    ap.add_argument("--max", type=int, default=10 ** 9)
    ap.add_argument("--known", default="[]")
    ap.add_argument("--out")
    ap.add_argument("--case")
    a = ap.parse_args()
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    if a.case:
        mod = importlib.import_module(a.module)
        scratch = tempfile.mkdtemp(prefix="verif-")
        cwd = os.getcwd()
        case = json.load(open(a.case))["case"]
        os.chdir(scratch)
        try:
            r = judge(mod, case)
        finally:
            os.chdir(cwd)
            import shutil
            shutil.rmtree(scratch, ignore_errors=True)
        print("REPRODUCED: " + r[1] if r and r[0] == "fail" else f"not reproduced: {r}")
        sys.exit(1 if r and r[0] == "fail" else 0)
    t0 = time.time()
    known = json.loads(a.known)
    jobs = [(a.module, a.tier, a.seed, k, a.procs, a.budget, a.max, known) for k in range(a.procs)]
    ctx = mp.get_context("fork")
    res = []
    fail = None
    with ctx.Pool(a.procs) as p:
        for r in p.imap_unordered(worker, jobs):
            res.append(r)
            if r["fail"] and fail is None:
                fail = r["fail"]
                p.terminate()
                break
    o = {"evaluations": sum(r["evaluations"] for r in res), "nontrivial": sum(r["nontrivial"] for r in res),
         "exhaustive": sum(r["exhaustive"] for r in res), "exhausted": all(r["exhausted"] for r in res),
         "skipped": sum(r["skipped"] for r in res), "skips": sorted({s for r in res for s in r["skips"]}),
         "harness": [h for r in res for h in r["harness"]][:3], "fail": fail,
         "known": sorted({s for r in res for s in r.get("known", [])}),
         "samples": [s for r in res for s in r["samples"]][:3], "wall": round(time.time() - t0, 2)}
    if a.out:
        json.dump(o, open(a.out, "w"))
    else:
        o["samples"] = [short(s) for s in o["samples"][:1]]
        print(json.dumps(o)[:5000])


if __name__ == "__main__":
    sys.modules["common"] = sys.modules["__main__"]
    main()
