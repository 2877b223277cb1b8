"""Verify contracts against the current source: generate every obligation, discharge it,
and report.  Nothing is cached between runs."""
import hashlib
import time
import traceback
import z3
from .engine import Interp, Mismatch
from .vals import Unsupported
from .world import World
from .solve import discharge, cli, text_of, Z3
from .theory import axioms_for

OK_DECORATORS = {"staticmethod", "classmethod", "property"}


class Result:
    """status: proved | failed | out-of-reach (source left the subset / the annotations' shape) | vacuous"""

    def __init__(self, c):
        self.name, self.target = c.name, c.target
        self.status, self.reason = "", ""
        self.obs = []            # dict(name, line, kind, result, backend, seconds)
        self.failed = []
        self.trusted = set()
        self.paths = 0
        self.reachable = 0
        self.wall = 0.0
        self.digest = ""

    def as_dict(self):
        return {"function": self.target, "contract": self.name, "status": self.status, "reason": self.reason,
                "obligations": len(self.obs), "discharged": sum(o["result"] == "unsat" for o in self.obs),
                "paths": self.paths, "reachable_end_states": self.reachable,
                "solver_s": round(sum(o["seconds"] for o in self.obs), 2),
                "backends": {b: sum(o["backend"] == b for o in self.obs) for b in
                             sorted({o["backend"] for o in self.obs})},
                "source_sha256": self.digest}


def generate(ccls, repo, contracts):
    """obligations of one contract; raises Unsupported / Mismatch"""
    c = ccls() if isinstance(ccls, type) else ccls
    w = World(repo, [x() if isinstance(x, type) else x for x in contracts])
    for k, h in getattr(c, "world_extra", {}).items():
        w.extra[k] = h
    for k, h in getattr(c, "world_methods", {}).items():
        w.methods[k] = h
    m, node, cls = w.find(c.target)
    for d in node.decorator_list:
        dn = getattr(d, "id", getattr(d, "attr", getattr(getattr(d, "func", None), "id", "?")))
        if dn not in OK_DECORATORS and dn not in getattr(c, "decorators", ()):
            raise Unsupported(f"decorator {dn}")
    I = Interp(w, c, node, m)
    I.fn_stack = []
    obs = I.explore()
    import ast
    dg = hashlib.sha256(ast.unparse(node).encode()).hexdigest()[:16]
    return c, I, obs, dg


def reachable(assumptions):
    """False only when the assumptions are contradictory"""
    s = z3.Solver()
    s.add(*assumptions)
    s.add(*axioms_for(assumptions))
    return cli(text_of(s), [Z3, "-T:2", "smt.mbqi=false"], 2) != "unsat"


def verify(ccls, repo, contracts=(), timeout=None, procs=8, vacuity=True):
    c = ccls() if isinstance(ccls, type) else ccls
    r = Result(c)
    t0 = time.time()
    try:
        try:
            c, I, obs, r.digest = generate(ccls, repo, contracts)
        except (Unsupported, Mismatch) as e:
            r.status, r.reason = "out-of-reach", f"{type(e).__name__}: {e}"
            return r
        except RecursionError as e:
            r.status, r.reason = "out-of-reach", "recursion"
            return r
        except Exception as e:   # the generator met something it was not written for
            r.status, r.reason = "out-of-reach", f"generator: {type(e).__name__}: {e} " + \
                traceback.format_exc().strip().split("\n")[-3].strip()
            return r
        r.trusted, r.paths = set(I.trusted), I.paths
        tmo = timeout or c.timeout
        for ob, (res, info, be, dt) in zip(obs, discharge(obs, tmo, procs)):
            d = {"name": f"{c.name}:{ob.name}", "line": ob.line, "kind": ob.kind, "result": res, "backend": be,
                 "seconds": round(dt, 3)}
            r.obs.append(d)
            if res not in ("unsat", "not tried"):
                r.failed.append({**d, "info": info[:1500]})
        if I.degraded:
            r.status, r.reason = "out-of-reach", "; ".join(sorted(set(I.degraded)))
            return r
        if r.failed and all(d["kind"] == "path" for d in r.failed):
            r.status, r.reason = "out-of-reach", "a branch taken by the generator as impossible was not confirmed"
            return r
        if r.failed:
            r.status = "failed"
            return r
        if vacuity:
            rets = [a for lab, a in I.end_states if lab == "return" or lab.startswith("raise")]
            r.reachable = sum(reachable(a) for a in rets)
            if not r.obs or r.reachable == 0:
                r.status, r.reason = "vacuous", "no obligation or no reachable exit"
                return r
        r.status = "proved"
        return r
    finally:
        r.wall = time.time() - t0


def verify_within(limit, ccls, repo, contracts=(), timeout=None):
    """verify() in a process of its own, ended after limit seconds (then: out of reach, never a failure)"""
    import os
    import pickle
    import select
    import signal
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.setsid()
            os.close(rd)
            r = verify(ccls, repo, contracts, timeout)
            with os.fdopen(wr, "wb") as f:
                pickle.dump(r.__dict__, f)
        finally:
            os._exit(0)
    os.close(wr)
    buf, end = b"", time.time() + limit
    try:
        while True:
            ok, _, _ = select.select([rd], [], [], max(0.0, end - time.time()))
            if not ok:
                buf = b""
                break
            x = os.read(rd, 1 << 16)
            if not x:
                break
            buf += x
    finally:
        os.close(rd)
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
    r = Result(ccls() if isinstance(ccls, type) else ccls)
    if buf:
        r.__dict__.update(pickle.loads(buf))
    else:
        r.status, r.reason, r.wall = "out-of-reach", f"no answer within {limit:.0f} s", limit
    return r
