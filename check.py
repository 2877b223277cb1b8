#!/usr/bin/env python3
"""Decide one property on /repo's current working tree.

    check.py --property P01 [--tier quick|thorough]
    check.py --replay replays/<file>.json

1. every obligation of every contract registered for the property (contracts/__init__.py) is generated from the
   current source and discharged (pyvc);
2. the bounded part (falsify/pNN.py) executes the real code: it stands in for functions outside the verifier's
   reach (labelled bounded, never counted as proved) and looks for a concrete failing input.
Exit 0: held.  Exit 1 with a VIOLATION line: broken.
"""
import argparse
import hashlib
import json
import os
import re
import subprocess
import sys
import tempfile
import time
import warnings

warnings.filterwarnings("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
BUDGET = {"quick": 30.0, "thorough": 420.0}


def env(scratch):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", LC_ALL="C.UTF-8", TZ="UTC",
             SCIKIT_MINE_DATA=scratch, PYTHONPATH=REPO, VERIF_REPO=REPO, OMP_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1", PYTHONWARNINGS="ignore", TMPDIR=scratch)
    mpl = os.path.join(scratch, "mpl")
    os.makedirs(mpl, exist_ok=True)
    e["MPLCONFIGDIR"] = "/opt/venv/mplconfig" if os.path.isdir("/opt/venv/mplconfig") else mpl
    return e


def known_findings(pid):
    """lines  'finding: property=<id> {"match": ..., | "case": ...} <what fails>'  of known-findings.txt"""
    out = []
    for line in open(os.path.join(HERE, "known-findings.txt")):
        m = re.match(r"finding: property=(\S+) (\{.*\}) :: (.*)$", line.strip())
        if m and m.group(1) == pid:
            out.append({**json.loads(m.group(2)), "what": m.group(3)})
    return out


def bounded(pid, tier, seed, budget):
    """run the falsifier on the real code"""
    mod = pid.lower()
    if not os.path.exists(os.path.join(HERE, "falsify", mod + ".py")):
        return None
    with tempfile.TemporaryDirectory(prefix="verif-") as scratch:
        out = os.path.join(scratch, "out.json")
        cmd = [PY, "-W", "ignore", os.path.join(HERE, "falsify", "common.py"), mod, "--tier", tier, "--seed", str(seed),
               "--budget", str(budget), "--known", json.dumps(known_findings(pid)), "--out", out]
        try:
            p = subprocess.run(cmd, cwd=scratch, env=env(scratch), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=budget * 2 + 240)
            if os.path.exists(out):
                return json.load(open(out))
            return {"error": p.stdout.decode(errors="replace")[-1500:]}
        except subprocess.TimeoutExpired:
            return {"error": "bounded part ran out of time"}


def proofs(pid, tier):
    import contracts
    from pyvc.verify import verify_within
    res = []
    end = time.time() + (420 if tier == "quick" else 3000)
    for ccls, deps in contracts.registered(pid):
        left = max(20.0, end - time.time())
        res.append(verify_within(left, ccls, REPO, deps, timeout=None if tier == "quick" else 60))
    return res


def write_replay(pid, what, data):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    js = json.dumps(data, indent=1, sort_keys=True, default=str)
    path = os.path.join(d, f"{pid}-{what}-{hashlib.sha256(js.encode()).hexdigest()[:10]}.json")
    with open(path, "w") as f:
        f.write(js)
    return path


def replay(path):
    data = json.load(open(path))
    if "case" in data:
        with tempfile.TemporaryDirectory(prefix="verif-") as scratch:
            p = subprocess.run([PY, "-W", "ignore", os.path.join(HERE, "falsify", "common.py"), data["module"],
                                "--case", os.path.abspath(path)], cwd=scratch, env=env(scratch))
            return p.returncode
    print(json.dumps(data["failed_obligations"], indent=1))
    rs = proofs(data["property"], "quick")
    bad = [r for r in rs if r.status == "failed"]
    for r in bad:
        print("still failing:", r.target, [o["name"] for o in r.failed])
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--no-bounded", action="store_true")
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    pid, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import contracts
    meta = contracts.PROPS[pid]
    rs = proofs(pid, tier)
    t1 = time.time()
    failed = [r for r in rs if r.status == "failed"]
    unreach = [r for r in rs if r.status in ("out-of-reach", "vacuous")]
    proved = [r for r in rs if r.status == "proved"]
    budget = a.budget or meta.get("budget", {}).get(tier) or BUDGET[tier]
    if tier == "quick" and (failed or unreach):
        budget *= 2     # the deductive part gave no proof: look harder for a failing input
    b = None if a.no_bounded else bounded(pid, tier, seed, budget)
    violations = []
    if b and b.get("fail"):
        data = {"property": pid, "module": pid.lower(), **b["fail"],
                "failed_obligations": [o for r in failed for o in r.failed],
                "replay_with": "python3 check.py --replay <this file>"}
        violations.append((write_replay(pid, "input", data), ""))
    elif failed:
        data = {"property": pid, "failed_obligations": [
            {"function": r.target, "source_sha256": r.digest, **o} for r in failed for o in r.failed]}
        violations.append((write_replay(pid, "obligation", data), " no-failing-input-found"))
    obligations = sum(len(r.obs) for r in rs)
    discharged = sum(o["result"] == "unsat" for r in proved for o in r.obs)
    level = meta["level"]
    if level == "proof" and (unreach or not obligations or discharged != obligations):
        level = "other"       # this run did not prove it
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": f"python3-vt -W ignore /verif/check.py --property {pid} --tier {tier}",
        "trusted_base": sorted({t for r in rs for t in r.trusted}) + contracts.TRUSTED + meta.get("trusted", []),
        "functions_under_contract": [r.as_dict() for r in rs],
        "not_proved_this_run": [{"function": r.target, "status": r.status, "reason": r.reason} for r in unreach + failed],
        "solver_s": round(sum(o["seconds"] for r in rs for o in r.obs), 2),
        "deductive_wall_s": round(t1 - t0, 2),
        "explanation": meta["explanation"],
    }
    if b is not None:
        if b.get("error") or b.get("harness"):
            cov["bounded_error"] = b.get("error") or b["harness"]
        if "evaluations" in b:
            cov.update(evaluations=b["evaluations"], distinct_nontrivial=b["nontrivial"],
                       rule=meta["bounded_rule"], samples=b["samples"] or ["none"],
                       bounded={"label": "bounded, not counted as proved", "enumerated_cases": b["exhaustive"],
                                "enumeration_completed": b["exhausted"], "internal_functions_missing": b["skips"],
                                "wall_s": b["wall"]})
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level,
          "coverage": cov, "assumptions": contracts.ASSUMPTIONS + meta.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for r in rs:
        print(f"{r.status:12s} {r.target} [{r.name}] {sum(o['result'] == 'unsat' for o in r.obs)}/{len(r.obs)} "
              f"{r.wall:.1f}s {r.reason}")
        for o in r.failed:
            print(f"   obligation not discharged: {o['name']} line {o['line']} ({o['result']})")
    if b is not None:
        print(f"bounded      {b.get('evaluations')} cases, {b.get('wall')} s, exhausted={b.get('exhausted')} "
              f"skipped={b.get('skipped')} {b.get('skips')}")
        if b.get("error") or b.get("harness"):
            print("bounded part incomplete (error of the harness, not of /repo):", b.get("error") or b["harness"])
        listed = {k["what"] for k in known_findings(pid)}
        for k in sorted(listed):
            print(f"KNOWN-FINDING: property={pid} {k}")
    if violations:
        if b and b.get("fail"):
            print("failing input:", json.dumps(b["fail"]["case"])[:2000])
            print("observed:", b["fail"]["message"])
        for path, tail in violations:
            print(f"VIOLATION property={pid} replay={path}{tail}")
        sys.exit(1)
    if not discharged and not a.no_bounded and not (b and b.get("evaluations")):
        print(f"nothing was decided for {pid}: no obligation discharged and the bounded part did not run")
        sys.exit(2)
    print(f"held: {pid} ({level}; {discharged}/{obligations} obligations)")
    sys.exit(0)


if __name__ == "__main__":
    main()
