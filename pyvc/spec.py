"""helpers to write specifications"""
import sys
import z3
from .types import *
from .vals import *

_c = [0]


def bv(sort, name="q"):
    _c[0] += 1
    if isinstance(sort, Ty):
        sort = sort.sort()
    return z3.Const(f"{name}${_c[0]}", sort)


def ints(k=1, name="i"):
    r = [bv(z3.IntSort(), name) for _ in range(k)]
    return r[0] if k == 1 else r


def FA(vs, body, pats=None):
    vs = vs if isinstance(vs, (list, tuple)) else [vs]
    f = sys._getframe(1)
    qid = f"{f.f_code.co_name}_{f.f_lineno}"
    if pats:
        try:
            return z3.ForAll(list(vs), body, patterns=pats, qid=qid)
        except z3.Z3Exception:      # not a legal trigger once its terms are concrete
            pass
    return z3.ForAll(list(vs), body, qid=qid)


def EX(vs, body, pats=None):
    vs = vs if isinstance(vs, (list, tuple)) else [vs]
    return z3.Exists(list(vs), body, patterns=pats) if pats else z3.Exists(list(vs), body)


def rng(j, lo, hi):
    return z3.And(lo <= j, j < hi)


And, Or, Not, Implies, Select, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.Select, z3.If
T, F_ = z3.BoolVal(True), z3.BoolVal(False)


def defarr(I, f, sort=None):
    """the array j -> f(j) (a definition, conservative)"""
    j = ints(1, "d")
    t = f(j)
    a = I.fresh("def", z3.ArraySort(z3.IntSort(), t.sort()))
    I.pc.append(z3.ForAll([j], z3.Select(a, j) == t, patterns=[z3.Select(a, j)], qid="defarr"))
    return a


def psum(arr, n):
    from . import theory
    return theory.psum_fn(arr.sort().range())(arr, n)


def log2(x):
    from . import theory
    return theory.log2_fn()(x)


def R(t):
    return z3.ToReal(t) if t.sort() == z3.IntSort() else t


def absv(t):
    return z3.If(t >= 0, t, -t)
