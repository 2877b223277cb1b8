"""Semantics of the built-in containers, and the contracts assumed on library calls."""
import ast
import z3
from .types import *
from .vals import *
from . import theory

B = z3.BoolSort()
# names of assumed library contracts, for the evidence
USED = set()


def used(I, name):
    I.trusted.add(name)


# ---------------------------------------------------------------- sets
def set_def(I, ety, pred, name="set", srcs=()):
    """fresh set with x in s <=> pred(x); also unfolded where membership in one of srcs is at hand"""
    s = I.fresh(name, z3.ArraySort(ety.sort(), B))
    x = I.bvar("x", ety.sort())
    body = z3.Select(s, x) == pred(x)
    I.assume(I.forall([x], body, [z3.Select(s, x)]))
    for A in srcs:
        if z3.is_app(A) and A.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED) \
                and all(I.occurs(v, A) for vs, _ in I.bound for v in vs):
            I.assume(I.forall([x], body, [z3.Select(A, x)]))
    return s


def set_op(I, op, a, b):
    """the same operation on the same sets is the same set"""
    key = ("setop", op, a.arr.get_id(), b.arr.get_id())
    c = I.ghost.get(key)
    if c is not None:
        return c[0]
    r = _set_op(I, op, a, b)
    if not I.bound:
        I.ghost[key] = (r, a.arr, b.arr)
    return r


def _set_op(I, op, a, b):
    A, Bb = a.arr, b.arr
    if op == "or":
        return set_def(I, a.ety, lambda x: z3.Or(z3.Select(A, x), z3.Select(Bb, x)), "union", (A, Bb))
    if op == "and":
        d = set_def(I, a.ety, lambda x: z3.And(z3.Select(A, x), z3.Select(Bb, x)), "inter", (A,))
        X = I.bvar("X", A.sort())
        sub = theory.subset_fn(a.ety)
        f = sub(X, d) == z3.And(sub(X, A), sub(X, Bb))
        I.assume(I.forall([X], f, [sub(X, d)]))
        p = z3.MultiPattern(sub(X, A), sub(X, Bb))
        if all(I.occurs(v, A) or I.occurs(v, Bb) for vs, _ in I.bound for v in vs):
            I.assume(I.forall([X], f, [p]))
        return d
    if op == "sub":
        d = set_def(I, a.ety, lambda x: z3.And(z3.Select(A, x), z3.Not(z3.Select(Bb, x))), "diff")
        if not I.bound:
            # also unfolded at the witness of a set not being included in what is removed
            X = I.bvar("X", A.sort())
            w = theory.notsub_fn(a.ety)(X, Bb)
            I.assume(I.forall([X], z3.Select(d, w) == z3.And(z3.Select(A, w), z3.Not(z3.Select(Bb, w))),
                              [theory.subset_fn(a.ety)(X, Bb)]))
        return d
    if op == "xor":
        return set_def(I, a.ety, lambda x: z3.Xor(z3.Select(A, x), z3.Select(Bb, x)), "sdiff")


def subset(I, A, Bb, ety):
    return theory.subset_fn(ety)(A, Bb)


def as_set(I, v):
    """any iterable, as a set value"""
    if isinstance(v, SetV):
        return v
    if isinstance(v, MapV):
        if v.kty is None:
            return SetV(None, None)
        return SetV(v.kty, v.dom)
    return seq_to_set(I, v)


def seq_to_set(I, v):
    if isinstance(v, OpaqueV):
        return OpaqueV("set of opaque")
    if isinstance(v, TupV) and not v.items:
        return SetV(None, None)
    if isinstance(v, SeqV) and v.ety is None:
        return SetV(None, None)
    lo = z3.IntVal(0)
    if isinstance(v, GenV) and v.wrap is None and v.ety is not None:
        # absolute positions: the triggers stay free of arithmetic
        lo, n, get, ety = v.pos, v.n, v.get, v.ety
        v.pos = v.n
    else:
        n, get, ety = I.view(v)
    if ety is None:
        return SetV(None, None)
    if z3.is_int_value(lo) and lo.as_long() == 0 and z3.is_int_value(n) and n.as_long() == 1:
        return SetV(ety, z3.Store(z3.K(ety.sort(), z3.BoolVal(False)), z3.simplify(to_term(get(lo))), z3.BoolVal(True)))
    s = I.fresh("setof", z3.ArraySort(ety.sort(), B))
    j = I.bvar("j", z3.IntSort())
    x = I.bvar("x", ety.sort())
    w = I.fresh_fn("where", ety.sort(), z3.IntSort())
    gj = to_term(get(j))
    I.assume(I.forall([j], z3.Implies(z3.And(lo <= j, j < n), z3.Select(s, gj)),
                      [gj] if z3.is_app(gj) and gj.num_args() else None))
    I.assume(I.forall([x], z3.Implies(z3.Select(s, x), z3.And(lo <= w(x), w(x) < n, to_term(get(w(x))) == x)),
                      [z3.Select(s, x)]))
    return SetV(ety, s)


def list_of(I, v):
    """list(iterable)"""
    if isinstance(v, SeqV):
        r = SeqV(v.ety, v.n, v.arr)
        r.taint = getattr(v, "taint", frozenset())
        return r
    if isinstance(v, OpaqueV):
        return v
    if isinstance(v, TupV):
        return TupV(v.items, "list")
    if isinstance(v, GenV) and getattr(v, "seq", None) is not None and z3.is_int_value(v.pos) and v.pos.as_long() == 0:
        s = v.seq
        v.pos = v.n
        r = SeqV(s.ety, s.n, s.arr)
        r.taint = getattr(s, "taint", frozenset())
        return r
    n, get, ety = I.view(v)
    if ety is None:
        return SeqV(None, z3.IntVal(0), None)
    if isinstance(v, SetV) or isinstance(v, MapV):
        n_, e, inv = (n, None, None)
        j = I.bvar("j", z3.IntSort())
        t = to_term(get(z3.IntVal(0)))
        # the enumeration array itself
        arr = t.arg(0)
        r = SeqV(ety, n, arr)
        return r
    j = I.bvar("j", z3.IntSort())
    arr = I.fresh("list", z3.ArraySort(z3.IntSort(), ety.sort()))
    I.assume(I.forall([j], z3.Implies(z3.And(0 <= j, j < n), z3.Select(arr, j) == to_term(get(j))),
                      [z3.Select(arr, j)]))
    t = to_term(get(j))
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR and t.num_args() and z3.is_select(t.arg(0)):
        # pairs (key, value): also found from the key
        I.assume(I.forall([j], z3.Implies(z3.And(0 <= j, j < n), z3.Select(arr, j) == t), [t.arg(0)]))
    r = SeqV(ety, n, arr)
    return r


# ---------------------------------------------------------------- arithmetic
def num(v):
    return isinstance(v, Sc) and v.ty in (INT, REAL, BOOL)


def pyfloordiv(a, b):
    return z3.If(b > 0, a / b, (-a) / (-b))


def pymod(a, b):
    return a - b * pyfloordiv(a, b)


def is_array(v):
    return isinstance(v, SeqV) and v.kind == "array"


def vmap(I, parts, f, line):
    """elementwise operation on numpy arrays (same length) and scalars"""
    arrs = [v for v in parts if is_array(v)]
    used(I, "numpy: elementwise arithmetic and comparison of one-dimensional arrays, over mathematical numbers")
    n = arrs[0].n
    for o in arrs[1:]:
        I.safe("shape", o.n == n, line, "ValueError")
    if any(v.ety is None for v in arrs):
        return SeqV(None, z3.IntVal(0), None, "array")
    j = I.bvar("j", z3.IntSort())
    outer = list(I.bound)
    I.bound.append(([j], [0 <= j, j < n]))
    try:
        r = f(*[from_term(v.ety, z3.Select(v.arr, j)) if is_array(v) else v for v in parts])
    finally:
        I.bound[:] = outer
    if not isinstance(r, Sc):
        raise Unsupported("elementwise result")
    arr = I.fresh("vec", z3.ArraySort(z3.IntSort(), r.ty.sort()))
    src = z3.Select(arrs[0].arr, j)
    I.forall2([j], z3.Implies(z3.And(0 <= j, j < n), z3.Select(arr, j) == r.term), [z3.Select(arr, j)],
              src if not z3.is_quantifier(arrs[0].arr) else None)
    return SeqV(r.ty, n, arr, "array")


def binop(I, op, a, b, line):
    for h in I.c.binop_hooks:
        r = h(I, op, a, b, line)
        if r is not None:
            return r
    if is_array(a) and (is_array(b) or num(b)) or is_array(b) and num(a):
        return vmap(I, [a, b], lambda x, y: binop(I, op, x, y, line), line)
    if num(a) and num(b):
        if isinstance(op, ast.Div):
            x, y = coerce_term(a, REAL), coerce_term(b, REAL)
            I.safe("div", y != 0, line, "ZeroDivisionError")
            ys = z3.simplify(y)
            if z3.is_rational_value(ys) or not I.c.reciprocal:
                return Sc(REAL, x / ys)
            return Sc(REAL, z3.RealVal(1) / y if z3.is_rational_value(z3.simplify(x)) and z3.simplify(x).as_fraction() == 1
                      else x * (z3.RealVal(1) / y))
        ty = REAL if REAL in (a.ty, b.ty) else INT
        if a.ty == BOOL and b.ty == BOOL and isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            f = {ast.BitAnd: z3.And, ast.BitOr: z3.Or, ast.BitXor: z3.Xor}[type(op)]
            return Sc(BOOL, f(a.term, b.term))
        x, y = coerce_term(a, ty), coerce_term(b, ty)
        if isinstance(op, ast.Add):
            return Sc(ty, x + y)
        if isinstance(op, ast.Sub):
            return Sc(ty, x - y)
        if isinstance(op, ast.Mult):
            return Sc(ty, x * y)
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            I.safe("div", y != 0, line, "ZeroDivisionError")
            if ty == INT:
                if z3.is_int_value(y) and y.as_long() > 0:
                    return Sc(INT, x / y) if isinstance(op, ast.FloorDiv) else Sc(INT, x % y)
                return Sc(INT, pyfloordiv(x, y) if isinstance(op, ast.FloorDiv) else pymod(x, y))
            q = z3.ToReal(z3.ToInt(x / y))
            return Sc(REAL, q if isinstance(op, ast.FloorDiv) else x - y * q)
        if isinstance(op, ast.Pow):
            return power(I, a, b, line)
        raise Unsupported(f"operator {type(op).__name__}")
    if isinstance(a, SetV) and isinstance(b, SetV):
        nm = {ast.BitOr: "or", ast.BitAnd: "and", ast.Sub: "sub", ast.BitXor: "xor"}.get(type(op))
        if nm:
            if a.ety is None and b.ety is None:
                return SetV(None, None)
            if a.ety is None:
                settle(a, b.ty)
            if b.ety is None:
                settle(b, a.ty)
            if a.ety != b.ety:
                raise Unsupported("sets of different types")
            return SetV(a.ety, set_op(I, nm, a, b), a.frozen)
    if isinstance(a, FnV) and a.kind == "keysview" and isinstance(op, (ast.Sub, ast.BitAnd, ast.BitOr)):
        s = SetV(a.map.kty, a.map.dom)
        bs = as_set(I, b.map if isinstance(b, FnV) and b.kind == "keysview" else b)
        r = binop(I, op, s, bs, line)
        if getattr(a.map, "sorted_keys", False):
            return sorted_seq(I, r)
        return r
    if isinstance(op, ast.Mult) and isinstance(b, (TupV, SeqV)) and isinstance(a, Sc):
        a, b = b, a
    if isinstance(op, ast.Mult) and isinstance(a, SeqV) and isinstance(b, Sc) and b.ty == INT and a.kind != "array" \
            and z3.is_int_value(a.n) and a.n.as_long() == 1 and a.ety.kind in SCALARS:
        return SeqV(a.ety, z3.If(b.term > 0, b.term, z3.IntVal(0)), z3.K(z3.IntSort(), z3.simplify(z3.Select(a.arr, 0))), a.kind)
    if isinstance(op, ast.Mult) and isinstance(a, TupV) and isinstance(b, Sc) and b.ty == INT and a.items:
        if z3.is_int_value(b.term):
            return TupV(a.items * b.term.as_long(), a.kind)
        if len(a.items) == 1 and isinstance(a.items[0], Sc):
            x = a.items[0]
            return SeqV(x.ty, z3.If(b.term > 0, b.term, z3.IntVal(0)), z3.K(z3.IntSort(), x.term), a.kind)
    if isinstance(op, ast.Add) and isinstance(a, TupV) and isinstance(b, TupV):
        return TupV(a.items + b.items, a.kind)
    if isinstance(op, ast.Add) and isinstance(a, (SeqV, TupV)) and isinstance(b, (SeqV, TupV)):
        return concat(I, a, b)
    if isinstance(a, OpaqueV) or isinstance(b, OpaqueV):
        return OpaqueV("arith")
    if isinstance(a, (StrV,)) or isinstance(b, StrV) or (isinstance(a, Sc) and a.ty == OBJ):
        return format_string(I, [a, b])
    raise Unsupported(f"operator {type(op).__name__} on {type(a).__name__}, {type(b).__name__} line {line}")


def sorted_seq(I, st):
    """sortedcontainers.SortedSet: its elements in increasing order"""
    used(I, "sortedcontainers.SortedDict/SortedSet: keys in increasing order; keys() - s is the sorted difference")
    if st.ety is None:
        return SeqV(None, z3.IntVal(0), None)
    if st.ety != INT:
        raise Unsupported("sorted set of non-integers")
    n, get, inv = I.enum_set(st.arr, st.ety)
    e = I.last_enum[1]
    j, k = I.bvar("j", z3.IntSort()), I.bvar("k", z3.IntSort())
    I.assume(I.forall([j, k], z3.Implies(z3.And(0 <= j, j < k, k < n), z3.Select(e, j) < z3.Select(e, k)),
                      [z3.MultiPattern(z3.Select(e, j), z3.Select(e, k))]))
    r = SeqV(INT, n, e)
    r.sorted_set = True
    r.set_arr = st.arr
    return r


def power(I, a, b, line):
    if z3.is_int_value(b.term) and 0 <= b.term.as_long() <= 4:
        r = None
        for _ in range(b.term.as_long()):
            r = a.term if r is None else r * a.term
        return Sc(a.ty, r if r is not None else z3.IntVal(1))
    if a.ty == INT and b.ty == INT:
        f = z3.Function("ipow", z3.IntSort(), z3.IntSort(), z3.IntSort())
        t = f(a.term, b.term)
        x, y = a.term, b.term
        I.assume(z3.Implies(y == 0, t == 1))
        I.assume(z3.Implies(z3.And(x > 0, y >= 0), t >= 1))
        I.assume(z3.Implies(y >= 1, t == x * f(x, y - 1)))
        return Sc(INT, t)
    f = z3.Function("rpow", z3.RealSort(), z3.RealSort(), z3.RealSort())
    x, y = coerce_term(a, REAL), coerce_term(b, REAL)
    I.assume(z3.Implies(x > 0, f(x, y) > 0))
    return Sc(REAL, f(x, y))


def concat(I, a, b):
    a = tup_to_seq(a) if isinstance(a, TupV) else a
    b = tup_to_seq(b) if isinstance(b, TupV) else b
    if a.ety is None:
        return SeqV(b.ety, b.n, b.arr)
    if b.ety is None:
        return SeqV(a.ety, a.n, a.arr)
    if a.ety != b.ety:
        raise Unsupported("concatenation of different types")
    arr = I.fresh("cat", a.arr.sort())
    j = I.bvar("j", z3.IntSort())
    I.assume(I.forall([j], z3.And(
        z3.Implies(z3.And(0 <= j, j < a.n), z3.Select(arr, j) == z3.Select(a.arr, j)),
        z3.Implies(z3.And(a.n <= j, j < a.n + b.n), z3.Select(arr, j) == z3.Select(b.arr, j - a.n))),
        [z3.Select(arr, j)]))
    I.assume(I.forall([j], z3.Implies(z3.And(0 <= j, j < b.n), z3.Select(arr, a.n + j) == z3.Select(b.arr, j)),
                      [z3.Select(b.arr, j)]))
    r = SeqV(a.ety, z3.simplify(a.n + b.n), arr, a.kind)
    r.cat = (arr, a.arr, a.n, getattr(a, "cat", None), b.arr, b.n, getattr(b, "cat", None))
    return r


def cat_sums(I, arr, n, cat, psum):
    """the sum of a concatenation is that of its parts"""
    if cat is not None and cat[0].eq(arr):
        _, a, an, ac, b, bn, bc = cat
        I.assume(z3.Implies(z3.And(an >= 0, bn >= 0, n == an + bn), psum(I, arr, n) == psum(I, a, an) + psum(I, b, bn)))
        for x, m, c in ((a, an, ac), (b, bn, bc)):
            if z3.is_int_value(m) and 0 < m.as_long() <= 8:
                I.assume(psum(I, x, m) == z3.Sum([z3.Select(x, z3.IntVal(i)) for i in range(m.as_long())]))
            cat_sums(I, x, m, c, psum)


def inplace(I, op, cur, val, line):
    """x op= y : in-place for mutable containers"""
    if isinstance(cur, SetV) and not cur.frozen:
        if cur.ety is None and isinstance(val, SetV) and val.ety is not None:
            settle(cur, val.ty)
        r = binop(I, op, cur, val, line)
        cur.arr = r.arr if r.ety is not None else cur.arr
        touch(I, cur)
        return cur
    if isinstance(cur, SeqV) and cur.kind == "list" and isinstance(op, ast.Add):
        r = concat(I, cur, list_of(I, val))
        cur.ety, cur.n, cur.arr = r.ety, r.n, r.arr
        return cur
    if is_array(cur):
        r = binop(I, op, cur, val, line)
        if r.ety != cur.ety:
            raise Unsupported("in-place operation changing the type of an array")
        cur.arr = r.arr
        touch(I, cur)
        return cur
    return binop(I, op, cur, val, line)


def touch(I, v):
    """v was mutated in place: write through to the container it came from and forget
    every other value that may share its storage"""
    org = getattr(v, "origin", None)
    if org is not None:
        cont, key = org
        cont.arr = z3.Store(cont.arr, key, to_term(v))
        stale(I, cont, v)
    elif getattr(v, "taint", None):
        raise Unsupported("in-place mutation of a value that may be shared")
    for cont, key in getattr(v, "stored", []):
        if org is not None and cont is org[0]:
            continue
        raise Unsupported("in-place mutation of a value stored in a container")


def stale(I, cont, keep=None):
    """values tagged as sharing storage with the elements of cont become unknown"""
    tag = id(cont)
    seen = set()

    def walk(v):
        if v is None or id(v) in seen or v is keep:
            return
        seen.add(id(v))
        if tag in getattr(v, "taint", ()):
            if isinstance(v, SeqV):
                v.arr = I.fresh("stale", v.arr.sort())
            elif isinstance(v, SetV):
                v.arr = I.fresh("stale", v.arr.sort())
            elif isinstance(v, MapV):
                v.arr = I.fresh("stale", v.arr.sort())
        if isinstance(v, TupV):
            for i in v.items:
                walk(i)
        if isinstance(v, RecV):
            for i in v.attrs.values():
                walk(i)
    for v in list(I.env.values()):
        walk(v)
    for v in I.F.args:
        walk(v)


def unary(I, op, v):
    if isinstance(v, OpaqueV):
        return v
    if op == "neg" and is_array(v) and v.ety in (INT, REAL):
        return vmap(I, [v], lambda x: Sc(x.ty, -x.term), 0)
    for h in I.c.binop_hooks:
        r = h(I, op, v, None, 0)
        if r is not None:
            return r
    raise Unsupported(f"unary {op}")


# ---------------------------------------------------------------- comparison
def compare(I, op, a, b, line):
    if isinstance(op, (ast.Is, ast.IsNot)):
        neg = isinstance(op, ast.IsNot)
        if isinstance(a, NoneV) or isinstance(b, NoneV):
            if isinstance(a, OpaqueV) or isinstance(b, OpaqueV):
                return Sc(BOOL, I.fresh("isnone", B))
            r = isinstance(a, NoneV) and isinstance(b, NoneV)
            o = a if isinstance(b, NoneV) else b
            if isinstance(o, Sc) and o.ty == OBJ:
                t = o.term == z3.Const("None", OBJ_SORT)
                return Sc(BOOL, z3.Not(t) if neg else t)
            return Sc(BOOL, z3.BoolVal(r != neg))
        if isinstance(a, Sc) and isinstance(b, Sc) and a.ty == BOOL and b.ty == BOOL:
            t = a.term == b.term
            return Sc(BOOL, z3.Not(t) if neg else t)
        if isinstance(a, (Sc, StrV)) and isinstance(b, (Sc, StrV)) and a.ty == b.ty == OBJ:
            t = a.term == b.term
            return Sc(BOOL, z3.Not(t) if neg else t)
        if isinstance(a, FnV) and isinstance(b, FnV):
            return Sc(BOOL, z3.BoolVal((a is b or (a.kind == b.kind == "global" and a.name == b.name)) != neg))
        if isinstance(a, (Sc, StrV)) and a.ty == OBJ and isinstance(b, FnV) and b.kind == "global":
            t = a.term == z3.Const("global:" + b.name, OBJ_SORT)
            return Sc(BOOL, z3.Not(t) if neg else t)
        if isinstance(a, (Sc, RecV, SetV, SeqV, MapV)) and isinstance(b, FnV):
            return Sc(BOOL, z3.BoolVal(neg))
        if isinstance(a, RecV) and isinstance(b, RecV):
            return Sc(BOOL, z3.BoolVal((a is b) != neg))
        raise Unsupported("is")
    if is_array(a) and (is_array(b) or num(b)) or is_array(b) and num(a):
        if not isinstance(op, (ast.In, ast.NotIn)):
            return vmap(I, [a, b], lambda x, y: compare(I, op, x, y, line), line)
    if isinstance(op, (ast.In, ast.NotIn)):
        t = contains(I, a, b, line)
        return Sc(BOOL, z3.Not(t) if isinstance(op, ast.NotIn) else t)
    if isinstance(op, (ast.Eq, ast.NotEq)):
        t = equal(I, a, b)
        if not z3.is_expr(t):
            return t
        return Sc(BOOL, z3.Not(t) if isinstance(op, ast.NotEq) else t)
    if num(a) and num(b):
        ty = REAL if REAL in (a.ty, b.ty) else INT
        x, y = coerce_term(a, ty), coerce_term(b, ty)
        return Sc(BOOL, {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)])
    if isinstance(a, SetV) and isinstance(b, SetV):
        if a.ety is None and b.ety is not None:
            settle(a, b.ty)
        if b.ety is None and a.ety is not None:
            settle(b, a.ty)
        sub = lambda p, q: subset(I, p.arr, q.arr, a.ety)
        if isinstance(op, ast.LtE):
            return Sc(BOOL, sub(a, b))
        if isinstance(op, ast.GtE):
            return Sc(BOOL, sub(b, a))
        if isinstance(op, ast.Lt):
            return Sc(BOOL, z3.And(sub(a, b), z3.Not(sub(b, a))))
        return Sc(BOOL, z3.And(sub(b, a), z3.Not(sub(a, b))))
    if isinstance(a, OpaqueV) or isinstance(b, OpaqueV):
        return Sc(BOOL, I.fresh("cmp", B))
    if isinstance(a, (Sc, StrV)) and isinstance(b, (Sc, StrV)) and a.ty == OBJ and b.ty == OBJ:
        lt = z3.Function("obj_lt", OBJ_SORT, OBJ_SORT, B)
        x, y = a.term, b.term
        return Sc(BOOL, {ast.Lt: lt(x, y), ast.Gt: lt(y, x), ast.LtE: z3.Not(lt(y, x)),
                         ast.GtE: z3.Not(lt(x, y))}[type(op)])
    if isinstance(a, TupV) and isinstance(b, TupV) and len(a.items) == len(b.items) and a.items:
        # lexicographic
        strict = isinstance(op, (ast.Lt, ast.Gt))
        one = ast.Lt() if isinstance(op, (ast.Lt, ast.LtE)) else ast.Gt()
        r = z3.BoolVal(not strict)
        for x, y in reversed(list(zip(a.items, b.items))):
            r = z3.Or(compare(I, one, x, y, line).term, z3.And(equal(I, x, y), r))
        return Sc(BOOL, r)
    raise Unsupported(f"comparison of {type(a).__name__} and {type(b).__name__} line {line}")


def equal(I, a, b):
    if isinstance(a, NoneV) or isinstance(b, NoneV):
        if isinstance(a, NoneV) and isinstance(b, NoneV):
            return z3.BoolVal(True)
        o = a if isinstance(b, NoneV) else b
        if isinstance(o, Sc) and o.ty == OBJ:
            return o.term == z3.Const("None", OBJ_SORT)
        if isinstance(o, OpaqueV):
            return I.fresh("eq", B)
        return z3.BoolVal(False)
    if num(a) and num(b):
        ty = REAL if REAL in (a.ty, b.ty) else INT
        return coerce_term(a, ty) == coerce_term(b, ty)
    if isinstance(a, FnV) and isinstance(b, FnV) and a.kind == b.kind == "global":
        return z3.BoolVal(a.name == b.name)
    if isinstance(a, StrV) and isinstance(b, StrV):
        return z3.BoolVal(a.s == b.s)
    if isinstance(a, OpaqueV) or isinstance(b, OpaqueV):
        return I.fresh("eq", B)
    if isinstance(a, (Sc, StrV)) and isinstance(b, (Sc, StrV)):
        if a.ty == b.ty:
            return a.term == b.term
        raise Unsupported(f"equality of {a.ty} and {b.ty}")
    if isinstance(a, SetV) and isinstance(b, SetV):
        if a.ety is None and b.ety is None:
            return z3.BoolVal(True)
        if a.ety is None:
            settle(a, b.ty)
        if b.ety is None:
            settle(b, a.ty)
        x = I.bvar("x", a.ety.sort())
        return z3.ForAll([x], z3.Select(a.arr, x) == z3.Select(b.arr, x))
    if isinstance(a, TupV) and isinstance(b, TupV):
        if len(a.items) != len(b.items):
            return z3.BoolVal(False)
        return z3.And(*[equal(I, x, y) for x, y in zip(a.items, b.items)]) if a.items else z3.BoolVal(True)
    if isinstance(a, (SeqV, TupV)) and isinstance(b, (SeqV, TupV)):
        a = tup_to_seq(a) if isinstance(a, TupV) else a
        b = tup_to_seq(b) if isinstance(b, TupV) else b
        if a.ety is None or b.ety is None:
            return a.n == b.n
        j = I.bvar("j", z3.IntSort())
        return z3.And(a.n == b.n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < a.n), equal(
            I, from_term(a.ety, z3.Select(a.arr, j)), from_term(b.ety, z3.Select(b.arr, j))))))
    raise Unsupported(f"equality of {type(a).__name__} and {type(b).__name__}")


def contains(I, x, c, line):
    for h in I.c.contains_hooks:
        r = h(I, x, c, line)
        if r is not None:
            return r
    if isinstance(c, SetV):
        if c.ety is None:
            return z3.BoolVal(False)
        return z3.Select(c.arr, coerce_term(x, c.ety))
    if isinstance(c, MapV):
        if c.kty is None:
            return z3.BoolVal(False)
        return z3.Select(c.dom, coerce_term(x, c.kty))
    if isinstance(c, FnV) and c.kind == "keysview":
        return contains(I, x, c.map, line)
    if isinstance(c, TupV):
        return z3.Or(*[equal(I, x, i) for i in c.items]) if c.items else z3.BoolVal(False)
    if isinstance(c, SeqV):
        if c.ety is None:
            return z3.BoolVal(False)
        j = I.bvar("j", z3.IntSort())
        return z3.Exists([j], z3.And(0 <= j, j < c.n, equal(I, x, from_term(c.ety, z3.Select(c.arr, j)))))
    if isinstance(c, RecV) and c.cls == "dict" and isinstance(x, StrV):
        return z3.BoolVal(x.s in c.attrs)
    if isinstance(c, OpaqueV):
        return I.fresh("in", B)
    raise Unsupported(f"in {type(c).__name__} line {line}")


# ---------------------------------------------------------------- subscripts
def getitem(I, base, key, line):
    if isinstance(base, GenV) and "sorted_keys" in getattr(getattr(base, "items_of", None), "__dict__", {}):
        base = list_of(I, base)        # views of a SortedDict are sequences
    if isinstance(base, MapV):
        if base.kty is None:
            raise PyRaiseKey(line)
        if isinstance(key, SeqV):
            h = I.world.getitem_hook(I, base, key, line)
            if h is not None:
                return h
        k = coerce_term(key, base.kty)
        if base.default is not None:
            if base.default == "set":
                empty = z3.K(base.vty.args[0].sort(), z3.BoolVal(False))
                base.arr = z3.If(z3.Select(base.dom, k), base.arr, z3.Store(base.arr, k, empty))
                base.dom = z3.Store(base.dom, k, z3.BoolVal(True))
            else:
                raise Unsupported("defaultdict factory")
        else:
            I.safe("KeyError", z3.Select(base.dom, k), line, "KeyError")
        v = from_term(base.vty, z3.Select(base.arr, k))
        if not isinstance(v, Sc):
            v.origin = (base, k)
            v.taint = frozenset([id(base)])
        return v
    if isinstance(base, TupV):
        if isinstance(key, FnV) and key.kind == "slice":
            lo, hi, st = (None if isinstance(x, NoneV) else _intval(x) for x in (key.lo, key.hi, key.step))
            return TupV(base.items[lo:hi:st], base.kind)
        k = _intval(key)
        if not -len(base.items) <= k < len(base.items):
            raise Unsupported("tuple index")
        return base.items[k]
    if isinstance(base, SeqV):
        if isinstance(key, FnV) and key.kind == "slice":
            return slice_seq(I, base, key, line)
        if is_array(base) and isinstance(key, SeqV) and key.ety == INT and base.ety is not None and not I.bound:
            used(I, "numpy: an array indexed by an array of integers takes the elements at these positions")
            j = I.bvar("j", z3.IntSort())
            ix = z3.Select(key.arr, j)
            I.safe("IndexError", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < key.n), z3.And(-base.n <= ix, ix < base.n)),
                                           patterns=[ix]), line, "IndexError")
            arr = I.fresh("taken", base.arr.sort())
            I.assume(I.forall([j], z3.Implies(z3.And(0 <= j, j < key.n), z3.Select(arr, j) == z3.Select(
                base.arr, z3.If(ix < 0, ix + base.n, ix))), [z3.Select(arr, j)]))
            return SeqV(base.ety, key.n, arr, "array")
        if not (isinstance(key, Sc) and key.ty == INT):
            h = I.world.getitem_hook(I, base, key, line)
            if h is not None:
                return h
            raise Unsupported("index type")
        if base.ety is None:
            I.safe("IndexError", z3.BoolVal(False), line, "IndexError")
            raise Unsupported("index into empty")
        k = key.term
        ks = z3.simplify(k)
        if z3.is_int_value(ks):
            k = ks if ks.as_long() >= 0 else z3.simplify(base.n + ks)
            I.safe("IndexError", z3.And(0 <= k, k < base.n), line, "IndexError")
        else:
            I.safe("IndexError", z3.And(-base.n <= k, k < base.n), line, "IndexError")
            if not I.entails(k >= 0):
                k = z3.If(k < 0, k + base.n, k)
        v = from_term(base.ety, z3.Select(base.arr, k))
        if not isinstance(v, (Sc, TupV)):
            v.origin = (base, k)
            v.taint = frozenset([id(base)])
        return v
    if isinstance(base, RecV) and base.cls == "dict" and isinstance(key, StrV):
        if key.s in base.attrs:
            return base.attrs[key.s]
        I.safe("KeyError", z3.BoolVal(False), line, "KeyError")
        raise Unsupported("missing key")
    if isinstance(base, OpaqueV):
        return OpaqueV("item")
    h = I.world.getitem_hook(I, base, key, line)
    if h is not None:
        return h
    raise Unsupported(f"subscript of {type(base).__name__} line {line}")


class PyRaiseKey(Unsupported):
    pass


def _intval(v):
    if isinstance(v, Sc):
        t = z3.simplify(v.term)
        if z3.is_int_value(t):
            return t.as_long()
    raise Unsupported("non-constant index into a tuple")


def slice_seq(I, base, key, line):
    if not isinstance(key.step, NoneV):
        st = _intval(key.step)
        if st == -1 and isinstance(key.lo, NoneV) and isinstance(key.hi, NoneV):
            return reverse_seq(I, base)
        raise Unsupported("slice step")
    n = base.n

    def clampt(v, dflt):
        if isinstance(v, NoneV):
            return dflt
        t = v.term
        t = z3.If(t < 0, t + n, t)
        return z3.simplify(z3.If(t < 0, z3.IntVal(0), z3.If(t > n, n, t)))
    lo, hi = clampt(key.lo, z3.IntVal(0)), clampt(key.hi, n)
    m = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
    if base.ety is None:
        return SeqV(None, z3.IntVal(0), None)
    if z3.is_int_value(lo) and lo.as_long() == 0:
        arr = base.arr
    else:
        arr = I.fresh("slice", base.arr.sort())
        j = I.bvar("j", z3.IntSort())
        I.assume(I.forall([j], z3.Implies(z3.And(0 <= j, j < m), z3.Select(arr, j) == z3.Select(base.arr, lo + j)),
                          [z3.Select(arr, j)]))
        I.assume(I.forall([j], z3.Implies(z3.And(lo <= j, j < hi), z3.Select(arr, j - lo) == z3.Select(base.arr, j)),
                          [z3.Select(base.arr, j)]))
    r = SeqV(base.ety, m, arr, base.kind)
    r.slice_of = (base.arr, lo, hi)
    if getattr(base, "set_arr", None) is not None:
        r.set_arr = base.set_arr
    return r


def reverse_seq(I, s):
    if s.ety is None:
        return SeqV(None, z3.IntVal(0), None)
    arr = I.fresh("rev", s.arr.sort())
    j = I.bvar("j", z3.IntSort())
    I.assume(I.forall([j], z3.Implies(z3.And(0 <= j, j < s.n), z3.Select(arr, j) == z3.Select(s.arr, s.n - 1 - j)),
                      [z3.Select(arr, j)]))
    I.assume(I.forall([j], z3.Implies(z3.And(0 <= j, j < s.n), z3.Select(arr, s.n - 1 - j) == z3.Select(s.arr, j)),
                      [z3.Select(s.arr, j)]))
    return SeqV(s.ety, s.n, arr, s.kind)


def setitem(I, base, key, v, line):
    if isinstance(base, MapV):
        if base.kty is None:
            if key.ty is None or v.ty is None:
                raise Unsupported("untyped map entry")
            settle(base, MapT(key.ty, v.ty))
        k = coerce_term(key, base.kty)
        base.arr = z3.Store(base.arr, k, coerce_term(v, base.vty))
        base.dom = z3.Store(base.dom, k, z3.BoolVal(True))
        base.order = None
        if not isinstance(v, (Sc, StrV)):
            tn = getattr(v, "taint", frozenset()) - {id(base)}
            if tn:
                base.taint = getattr(base, "taint", frozenset()) | tn
        org = getattr(v, "origin", None)
        if not (org is not None and org[0] is base):
            stale(I, base, v)
        return
    if isinstance(base, SeqV):
        if isinstance(key, Sc) and key.ty == INT:
            I.safe("IndexError", z3.And(-base.n <= key.term, key.term < base.n), line, "IndexError")
            k = z3.simplify(z3.If(key.term < 0, key.term + base.n, key.term))
            base.arr = z3.Store(base.arr, k, coerce_term(v, base.ety))
            touch(I, base)
            return
    if isinstance(base, RecV) and base.cls == "dict" and isinstance(key, StrV):
        base.attrs[key.s] = v
        return
    if isinstance(base, OpaqueV):
        return
    if I.world.setitem_hook(I, base, key, v, line):
        return
    raise Unsupported(f"store into {type(base).__name__} line {line}")


def delitem(I, base, key, line):
    if isinstance(base, MapV):
        k = coerce_term(key, base.kty)
        I.safe("KeyError", z3.Select(base.dom, k), line, "KeyError")
        base.dom = z3.Store(base.dom, k, z3.BoolVal(False))
        base.order = None
        return
    raise Unsupported(f"del on {type(base).__name__}")


# ---------------------------------------------------------------- attributes
def getattr_(I, base, attr, line):
    if isinstance(base, RecV):
        if attr in base.attrs:
            return base.attrs[attr]
        m = I.world.find_method(base.cls, attr)
        if m is not None:
            return FnV("method", self_=base, attr=attr)
        h = I.world.attr_hook(I, base, attr, line)
        if h is not None:
            return h
        return FnV("method", self_=base, attr=attr)
    if isinstance(base, FnV) and base.kind == "global":
        h = I.world.attr_hook(I, base, attr, line)
        return h if h is not None else FnV("global", name=base.name + "." + attr)
    h = I.world.attr_hook(I, base, attr, line)
    if h is not None:
        return h
    if isinstance(base, OpaqueV):
        return OpaqueV("attr " + attr)
    return FnV("method", self_=base, attr=attr)


def setattr_(I, base, attr, v, line):
    if isinstance(base, RecV):
        base.attrs[attr] = v
        return
    if isinstance(base, OpaqueV):
        return
    for h in I.c.setattr_hooks:
        if h(I, base, attr, v, line):
            return
    raise Unsupported(f"attribute store on {type(base).__name__}")


# ---------------------------------------------------------------- strings
def format_string(I, parts):
    """a string built from parts: an uninterpreted value"""
    return Sc(OBJ, I.fresh("text", OBJ_SORT))


def dict_merge(I, pairs):
    """{**a, k: v, ...}"""
    out = MapV(None, None, None, None)
    for k, v in pairs:
        if k is None:
            if isinstance(v, MapV):
                if v.kty is None:
                    continue
                if out.kty is None:
                    out = MapV(v.kty, v.vty, v.dom, v.arr)
                else:
                    map_update(I, out, v)
            else:
                raise Unsupported("** of non-map")
        else:
            setitem(I, out, k, v, 0)
    return out


def map_update(I, m, o):
    if o.kty is None:
        return
    if m.kty is None:
        settle(m, o.ty)
    dom = I.fresh("dom", m.dom.sort())
    arr = I.fresh("val", m.arr.sort())
    x = I.bvar("x", m.kty.sort())
    md, ma, od, oa = m.dom, m.arr, o.dom, o.arr
    I.assume(I.forall([x], z3.Select(dom, x) == z3.Or(z3.Select(md, x), z3.Select(od, x)), [z3.Select(dom, x)]))
    I.assume(I.forall([x], z3.Select(arr, x) == z3.If(z3.Select(od, x), z3.Select(oa, x), z3.Select(ma, x)),
                      [z3.Select(arr, x)]))
    m.dom, m.arr, m.order = dom, arr, None


def dict_from_view(I, n, get, g, e):
    """{key(x): val(x) for x in view if cond}, later entries win"""
    j = I.bvar("j", z3.IntSort())
    outer = list(I.bound)
    I.bound.append(([j], [0 <= j, j < n]))
    saved = None
    try:
        saved = I.with_target(g.target, get(j))
        conds = []
        for c in g.ifs:
            t = I.truth(I.ev(c))
            conds.append(t)
            vs, gs = I.bound[-1]
            I.bound[-1] = (vs, gs + [t])
        k, v = I.ev(e.key), I.ev(e.value)
        if k.ty is None or v.ty is None:
            raise Unsupported("dict comprehension types")
        kt, vt, kty, vty = to_term(k), to_term(v), k.ty, v.ty
    finally:
        I.bound[:] = outer
        if saved is not None:
            I.restore(saved)
    cond = z3.And(0 <= j, j < n, *conds)
    dom = I.fresh("dom", z3.ArraySort(kty.sort(), B))
    arr = I.fresh("val", z3.ArraySort(kty.sort(), vty.sort()))
    last = I.fresh_fn("last", kty.sort(), z3.IntSort())
    x = I.bvar("x", kty.sort())
    at = lambda t, y: z3.substitute(t, (j, y))
    I.assume(I.forall([j], z3.Implies(cond, z3.And(z3.Select(dom, kt), last(kt) >= j)), I.term_patterns(kt, cond, j)))
    I.assume(I.forall([x], z3.Implies(z3.Select(dom, x), z3.And(
        at(cond, last(x)), at(kt, last(x)) == x, z3.Select(arr, x) == at(vt, last(x)))), [z3.Select(dom, x)]))
    return MapV(kty, vty, dom, arr)
