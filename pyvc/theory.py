"""Defined functions and their axioms.  Axioms of a symbol are added to an obligation only when the symbol occurs."""
import z3
from .types import *

REG = {}     # decl name -> list of closed formulas


def _fa(vs, body, patterns):
    import sys
    f = sys._getframe(1)
    return z3.ForAll(vs, body, patterns=patterns, qid=f"{f.f_code.co_name}_{f.f_lineno}")


def fn(name, *sorts):
    return z3.Function(name, *sorts)


def _v(name, sort):
    return z3.Const("th_" + name, sort)


_IDS = {}


def _kind():
    return fn("kind_of", OBJ_SORT, z3.IntSort())


def text_const(s):
    """a string constant: different strings are different objects, and no string is a number"""
    c = z3.Const("str:" + s, OBJ_SORT)
    if "str:" + s not in REG:
        _IDS[s] = len(_IDS)
        REG["str:" + s] = [_kind()(c) == 2, fn("text_id", OBJ_SORT, z3.IntSort())(c) == _IDS[s]]
    return c


def box_fn():
    """an integer as an object (key of a dictionary holding other objects too)"""
    f = fn("box_int", z3.IntSort(), OBJ_SORT)
    if "box_int" not in REG:
        x = _v("x", z3.IntSort())
        REG["box_int"] = [_fa([x], z3.And(fn("unbox_int", OBJ_SORT, z3.IntSort())(f(x)) == x, _kind()(f(x)) == 1), patterns=[f(x)])]
    return f


def notsub_fn(ety):
    """an element of A outside B, when A is not included in B"""
    s = z3.ArraySort(ety.sort(), z3.BoolSort())
    return fn("notsub_" + ety.name, s, s, ety.sort())


def subset_fn(ety):
    s = z3.ArraySort(ety.sort(), z3.BoolSort())
    name = "sub_" + ety.name
    f = fn(name, s, s, z3.BoolSort())
    if name not in REG:
        w = notsub_fn(ety)
        A, B, C, x = _v("A", s), _v("B", s), _v("C", s), _v("x", ety.sort())
        S = z3.Select
        REG[name] = [
            _fa([A, B, x], z3.Implies(z3.And(f(A, B), S(A, x)), S(B, x)), patterns=[z3.MultiPattern(f(A, B), S(A, x))]),
            _fa([A, B, x], z3.Implies(z3.And(f(A, B), S(A, x)), S(B, x)), patterns=[z3.MultiPattern(f(A, B), S(B, x))]),
            _fa([A, B], z3.Or(f(A, B), z3.And(S(A, w(A, B)), z3.Not(S(B, w(A, B))))), patterns=[f(A, B)]),
            # theorems
            _fa([A, B, C], z3.Implies(z3.And(f(A, B), f(B, C)), f(A, C)), patterns=[z3.MultiPattern(f(A, B), f(B, C))]),
            _fa([A, B], z3.Implies(z3.And(f(A, B), f(B, A)), A == B), patterns=[z3.MultiPattern(f(A, B), f(B, A))]),
        ]
    return f


def mark(x, tag=""):
    """true of everything; a trigger under the control of the specification"""
    srt = x.sort()
    name = "mark" + tag + "_" + str(srt).replace(" ", "").replace("(", "").replace(")", "").replace(",", "_")
    f = fn(name, srt, z3.BoolSort())
    if name not in REG:
        v = _v("m", srt)
        REG[name] = [_fa([v], f(v), patterns=[f(v)])]
    return f(x)


def card_fn(ety):
    """number of elements of a finite set (>= 0); nothing is said of sets that are not finite"""
    s = z3.ArraySort(ety.sort(), z3.BoolSort())
    name = "card_" + ety.name
    f = fn(name, s, z3.IntSort())
    if name not in REG:
        sub = subset_fn(ety)
        el = fn("some_" + ety.name, s, ety.sort())
        A, B, x = _v("A", s), _v("B", s), _v("x", ety.sort())
        S = z3.Select
        st = z3.Store
        T, Fa = z3.BoolVal(True), z3.BoolVal(False)
        REG[name] = [
            _fa([A], z3.Implies(f(A) > 0, S(A, el(A))), patterns=[f(A)]),
            _fa([A, x], z3.Implies(z3.And(f(A) >= 0, S(A, x)), f(A) > 0), patterns=[z3.MultiPattern(f(A), S(A, x))]),
            f(z3.K(ety.sort(), Fa)) == 0,
            _fa([A, B], z3.Implies(z3.And(f(A) >= 0, f(B) >= 0, sub(A, B)), z3.And(
                f(A) <= f(B), z3.Or(f(A) < f(B), A == B))), patterns=[z3.MultiPattern(f(A), f(B), sub(A, B))]),
            # a part of a finite set is finite
            _fa([A, B], z3.Implies(z3.And(f(B) >= 0, sub(A, B)), f(A) >= 0), patterns=[z3.MultiPattern(f(A), f(B), sub(A, B))]),
            _fa([A, x], z3.Implies(f(A) >= 0, f(st(A, x, T)) == f(A) + z3.If(S(A, x), 0, 1)),
                      patterns=[f(st(A, x, T))]),
            _fa([A, x], z3.Implies(f(A) >= 0, f(st(A, x, Fa)) == f(A) - z3.If(S(A, x), 1, 0)),
                      patterns=[f(st(A, x, Fa))]),
        ]
    return f


def psum_fn(es):
    name = "psum_" + str(es)
    asort = z3.ArraySort(z3.IntSort(), es)
    f = fn(name, asort, z3.IntSort(), es)
    if name not in REG:
        a, m = _v("a", asort), _v("m", z3.IntSort())
        zero = z3.RealVal(0) if es == z3.RealSort() else z3.IntVal(0)
        REG[name] = [
            _fa([a], f(a, 0) == zero, patterns=[f(a, 0)]),
            _fa([a, m], z3.Implies(m >= 0, f(a, m + 1) == f(a, m) + z3.Select(a, m)), patterns=[f(a, m + 1)]),
            ext_axiom(f, [asort], es), ]
    return f


def ext_axiom(f, asorts, es):
    """f(a, n) depends on the first n elements of a only"""
    asort = asorts[0]
    a, b, m = _v("a", asort), _v("b", asort), _v("m", z3.IntSort())
    w = fn("differ_" + f.name(), asort, asort, z3.IntSort(), z3.IntSort())
    d = w(a, b, m)
    return _fa([a, b, m], z3.Or(f(a, m) == f(b, m), z3.And(0 <= d, d < m, z3.Select(a, d) != z3.Select(b, d))),
               patterns=[z3.MultiPattern(f(a, m), f(b, m))])


def mapsum_fn(ks):
    """the sum of the values of a finite dictionary: determined by its keys and their values"""
    name = "sum_of_values_" + str(ks)
    ds, vs = z3.ArraySort(ks, z3.BoolSort()), z3.ArraySort(ks, z3.RealSort())
    f = fn(name, ds, vs, z3.RealSort())
    if name not in REG:
        w = fn("differ_" + name, ds, vs, ds, vs, ks)
        d1, a1, d2, a2 = _v("d1", ds), _v("a1", vs), _v("d2", ds), _v("a2", vs)
        x = w(d1, a1, d2, a2)
        S = z3.Select
        REG[name] = [_fa([d1, a1, d2, a2], z3.Or(f(d1, a1) == f(d2, a2), S(d1, x) != S(d2, x), z3.And(S(d1, x), S(a1, x) != S(a2, x))),
                         patterns=[z3.MultiPattern(f(d1, a1), f(d2, a2))])]
    return f


def seqfn(name, es, rs):
    """an unspecified function of a finite sequence (array and length)"""
    asort = z3.ArraySort(z3.IntSort(), es)
    f = fn(name, asort, z3.IntSort(), rs)
    if name not in REG:
        REG[name] = [ext_axiom(f, [asort], rs)]
    return f


def log2_fn():
    f = fn("log2", z3.RealSort(), z3.RealSort())
    if "log2" not in REG:
        a, b = _v("a", z3.RealSort()), _v("b", z3.RealSort())
        REG["log2"] = [f(z3.RealVal(1)) == 0, f(z3.RealVal(2)) == 1,
                       _fa([a, b], z3.Implies(z3.And(a > 0, b > a), f(b) > f(a)),
                                 patterns=[z3.MultiPattern(f(a), f(b))])]
    return f


def axioms_for(exprs):
    seen, names, todo = set(), set(), list(exprs)
    out, done = [], set()
    keep = []
    while todo:
        t = todo.pop()
        keep.append(t)
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            todo.append(t.body())
            continue
        if z3.is_app(t):
            nm = t.decl().name()
            if nm in REG and nm not in done:
                done.add(nm)
                out += REG[nm]
                todo += REG[nm]
            todo += t.children()
    return out
