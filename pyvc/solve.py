"""Discharging obligations with the z3 4.8.12 and cvc5 command lines."""
import multiprocessing as mp
import os
import subprocess
import tempfile
import time
import z3
from .theory import axioms_for

Z3 = next((p for p in ("/usr/bin/z3", "/usr/local/bin/z3") if os.path.exists(p)), "z3")
CVC5 = "cvc5"
ENOUGH = 2


def smt2(ob, core=None):
    s = z3.Solver()
    for a in ob.assumptions if core is None else core:
        s.add(a)
    s.add(z3.Not(ob.goal))
    s.add(*axioms_for(list(ob.assumptions) + [ob.goal]))
    return text_of(s)


def som(ob):
    """the same obligation with every product multiplied out; None when nothing changes"""
    fs = list(ob.assumptions) + [z3.Not(ob.goal)]
    gs = [f if z3.is_quantifier(f) else z3.simplify(f, som=True, elim_and=False) for f in fs]
    if all(f.eq(g) for f, g in zip(fs, gs)) or not _nonlinear(ob.goal):
        return None
    s = z3.Solver()
    s.add(*gs)
    s.add(*axioms_for(fs))
    return text_of(s)


def _nonlinear(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_MUL, z3.Z3_OP_DIV) and \
                sum(not z3.is_rational_value(c) and not z3.is_int_value(c) for c in x.children()) > 1:
            return True
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(x.arg(1)):
            return True
        todo += x.children()
    return False


def text_of(s):
    t = s.to_smt2()
    d = "(declare-sort Obj 0)"
    if d in t or " Obj" in t:      # the printer may put it after datatypes that use it
        t = d + "\n" + t.replace(d, "")
    return t


def model_of(text, timeout):
    """a model of the negated goal, when the solver finds one: only reported, never believed"""
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(text + "\n(get-model)\n")
        p = f.name
    try:
        out = subprocess.run([Z3, f"-T:{int(timeout)}", p], capture_output=True, text=True, timeout=timeout + 2).stdout
    except subprocess.TimeoutExpired:
        out = ""
    finally:
        os.unlink(p)
    return out[4:4000] if out.startswith("sat") else ""


def cli(text, cmd, timeout):
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(text)
        p = f.name
    try:
        out = subprocess.run(cmd + [p], capture_output=True, text=True, timeout=timeout + 5).stdout
    except subprocess.TimeoutExpired:
        out = "timeout"
    finally:
        os.unlink(p)
    first = out.strip().split("\n")[0] if out.strip() else "none"
    return first


def _work(job):
    idx, text, timeout, use_cvc5, flat = job
    t0 = time.time()
    res, info = "unknown", ""
    backend = "z3"
    # The deciding back ends are z3 4.8.12 and cvc5.  z3 5.3.2 (the library version) answered "unsat" on satisfiable
    # problems over sets of sets, so its "unsat" is never believed; it is only asked for a model.
    opts = ["smt.mbqi=false", "smt.auto_config=false", "smt.relevancy=0"]
    ext = ["smt.array.extensional=false"]     # fewer consequences, so "unsat" stays sound
    plan = [("z3", min(timeout, 3), opts[:2] + ext), ("z3", min(timeout, 2), opts[:1] + ext), ("z3", min(timeout, 4), opts[:1]), ("cvc5", min(timeout, 6), None), ("z3", timeout, opts[:1] + ["smt.random_seed=7"]),
            ("z3", timeout, opts[:2]), ("z3", timeout, opts), ("cvc5", timeout, None)]
    if flat is not None:
        plan = plan[:2] + [("z3 (products expanded)", min(timeout, 3), opts[:2]), ("z3 (products expanded)", timeout, [])] + plan[2:]
    for be, t, ex in plan:
        if be == "z3 (products expanded)":
            r = cli(flat, [Z3, f"-T:{int(t)}"] + ex, t)
            r = r if r == "unsat" else "unknown"
        elif be == "z3":
            r = cli(text, [Z3, f"-T:{int(t)}"] + ex, t)
            if r == "sat" and ext[0] in ex:      # a model without extensionality is no model
                r = "unknown"
        else:
            r = cli(text, [CVC5, "--lang=smt2", "--full-saturate-quant", f"--tlimit={int(t * 1000)}"], t)
        info += f"{be}: {r}; "
        if r == "unsat" or (r == "sat" and be == "z3"):
            res, backend = r, be
            break
    if res != "unsat":
        m = model_of(text, min(timeout, 4))
        if m:
            info += "model: " + m
    return idx, res, info, backend, time.time() - t0


def holds_now(assumptions, goal, timeout=8):
    s = z3.Solver()
    s.add(*assumptions)
    s.add(z3.Not(goal))
    s.add(*axioms_for(list(assumptions) + [goal]))
    t = text_of(s)
    for ex in (["smt.auto_config=false"], []):
        if cli(t, [Z3, f"-T:{timeout}", "smt.mbqi=false", "smt.array.extensional=false"] + ex, timeout) == "unsat":
            return True
    return False


def alpha_eq(a, b):
    """the same formula up to the names of bound variables and triggers"""
    if a.eq(b):
        return True
    if z3.is_not(a) and z3.is_not(b):
        return alpha_eq(a.arg(0), b.arg(0))
    return (z3.is_quantifier(a) and z3.is_quantifier(b) and a.is_forall() == b.is_forall() and a.is_exists() == b.is_exists() and a.num_vars() == b.num_vars()
            and all(a.var_sort(k) == b.var_sort(k) for k in range(a.num_vars())) and a.body().eq(b.body()))


def discharge(obs, timeout=20, procs=8, use_cvc5=True):
    """[(result, info, backend, seconds)] in order; result unsat = proved; after ENOUGH failures the rest is not tried"""
    out = [None] * len(obs)
    jobs = []
    for i, ob in enumerate(obs):
        g = z3.simplify(ob.goal)
        if z3.is_true(g):
            out[i] = ("unsat", "trivial", "simplifier", 0.0)
        elif any(alpha_eq(a, ob.goal) for a in ob.assumptions):
            out[i] = ("unsat", "the goal is an assumption", "identity", 0.0)
        else:
            jobs.append((i, smt2(ob), timeout, use_cvc5, som(ob)))
    if jobs:
        if procs > 1 and len(jobs) > 1:
            with mp.get_context("fork").Pool(min(procs, len(jobs))) as pool:
                for idx, res, info, be, dt in pool.imap_unordered(_work, jobs):
                    out[idx] = (res, info, be, dt)
                    if sum(o is not None and o[0] != "unsat" for o in out) >= ENOUGH:
                        pool.terminate()
                        break
        else:
            for j in jobs:
                idx, res, info, be, dt = _work(j)
                out[idx] = (res, info, be, dt)
    return [o or ("not tried", "", "-", 0.0) for o in out]
