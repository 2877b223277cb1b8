"""Symbolic values.  Containers are Python objects with identity (aliasing between
variables is object identity); their contents are SMT terms."""
import z3
from .types import *
from . import theory


class Unsupported(Exception):
    """the source uses something outside the verifier's subset"""


class V:
    taint = frozenset()


class Sc(V):
    """scalar: int, real, bool, obj"""

    def __init__(self, ty, term, py=None):
        self.ty, self.term, self.py = ty, term, py

    def __repr__(self):
        return f"Sc({self.ty},{self.term})"


class NoneV(V):
    ty = None

    def __repr__(self):
        return "None"


NONE = NoneV()


class StrV(V):
    """a concrete python string (only used as a key/constant)"""

    def __init__(self, s):
        self.s = s
        self.ty = OBJ
        self.term = theory.text_const(s)


class SetV(V):
    def __init__(self, ety, arr, frozen=False, enum=None):
        self.ety, self.arr, self.frozen, self.enum = ety, arr, frozen, enum

    @property
    def ty(self):
        return SetT(self.ety) if self.ety is not None else None


class SeqV(V):
    """list / tuple / array of homogeneous elements (immutable python view: mutations replace n, arr)"""

    def __init__(self, ety, n, arr, kind="list"):
        self.ety, self.n, self.arr, self.kind = ety, n, arr, kind

    @property
    def ty(self):
        return SeqT(self.ety) if self.ety is not None else None


class MapV(V):
    def __init__(self, kty, vty, dom, arr, default=None, order=None):
        self.kty, self.vty, self.dom, self.arr, self.default, self.order = kty, vty, dom, arr, default, order

    @property
    def ty(self):
        return MapT(self.kty, self.vty) if self.kty is not None else None


class TupV(V):
    """heterogeneous tuple or list of concrete length"""

    def __init__(self, items, kind="tuple"):
        self.items, self.kind = list(items), kind

    @property
    def ty(self):
        ts = [i.ty for i in self.items]
        return TupT(*ts) if all(t is not None for t in ts) else None


class RecV(V):
    """object with attributes"""
    ty = None

    def __init__(self, cls, attrs=None, label=None):
        self.cls, self.attrs, self.label = cls, dict(attrs or {}), label


class FnV(V):
    ty = None

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


class GenV(V):
    """a stateful iterator over a sequence view"""
    ty = None

    def __init__(self, n, get, pos, ety=None, wrap=None):
        self.n, self.get, self.pos, self.ety, self.wrap = n, get, pos, ety, wrap


class RangeV(V):
    ty = None

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class OpaqueV(V):
    """a value about which nothing is known"""
    ty = None

    def __init__(self, why=""):
        self.why = why


def clone(v, memo):
    """copy a value graph, preserving sharing"""
    if v is None or isinstance(v, (Sc, NoneV, StrV, RangeV, OpaqueV)):
        return v
    if id(v) in memo:
        return memo[id(v)][1]
    if isinstance(v, SetV):
        r = SetV(v.ety, v.arr, v.frozen, v.enum)
    elif isinstance(v, SeqV):
        r = SeqV(v.ety, v.n, v.arr, v.kind)
    elif isinstance(v, MapV):
        r = MapV(v.kty, v.vty, v.dom, v.arr, v.default, v.order)
    elif isinstance(v, TupV):
        r = TupV([], v.kind)
        memo[id(v)] = (v, r)
        r.items = [clone(i, memo) for i in v.items]
    elif isinstance(v, RecV):
        r = RecV(v.cls, {}, v.label)
        memo[id(v)] = (v, r)
        r.attrs = {k: clone(a, memo) for k, a in v.attrs.items()}
    elif isinstance(v, FnV):
        r = FnV(v.kind)
        memo[id(v)] = (v, r)
        for k, a in v.__dict__.items():
            r.__dict__[k] = clone(a, memo) if isinstance(a, V) else a
    elif isinstance(v, GenV):
        r = GenV(v.n, v.get, v.pos, v.ety, v.wrap)
    else:
        raise Unsupported(f"clone {type(v)}")
    for a in ("taint", "origin", "keyed", "sorted_keys", "sorted_set"):
        if a in v.__dict__:
            r.__dict__[a] = v.__dict__[a]
    memo[id(v)] = (v, r)
    return r


def to_term(v):
    """SMT term of a value (its current contents)"""
    if isinstance(v, (Sc, StrV)):
        return v.term
    t = v.ty
    if t is None:
        raise Unsupported(f"untyped value {type(v).__name__} used as an element")
    s = t.sort()
    if isinstance(v, SetV):
        return v.arr
    if isinstance(v, SeqV):
        return s.constructor(0)(v.n, v.arr)
    if isinstance(v, MapV):
        return s.constructor(0)(v.dom, v.arr)
    if isinstance(v, TupV):
        return s.constructor(0)(*[coerce_term(i, ty) for i, ty in zip(v.items, t.args)])
    raise Unsupported(f"to_term {type(v).__name__}")


def coerce_term(v, ty):
    """term of v, converted to type ty (int -> real, bool -> int, empty containers)"""
    if isinstance(v, Sc):
        if v.ty == ty:
            return v.term
        if ty == REAL and v.ty == INT:
            return z3.ToReal(v.term)
        if ty == REAL and v.ty == BOOL:
            return z3.If(v.term, z3.RealVal(1), z3.RealVal(0))
        if ty == INT and v.ty == BOOL:
            return z3.If(v.term, z3.IntVal(1), z3.IntVal(0))
        if ty == BOOL and v.ty == INT:
            return v.term != 0
        if ty == OBJ and v.ty == INT:
            return theory.box_fn()(v.term)
        raise Unsupported(f"coerce {v.ty} to {ty}")
    if isinstance(v, StrV):
        if ty == OBJ:
            return v.term
        raise Unsupported(f"coerce str to {ty}")
    settle(v, ty)
    if isinstance(v, SeqV) and ty.kind == "set":
        raise Unsupported("list used as set")
    if v.ty != ty:
        if isinstance(v, TupV) and ty.kind == "tup" and len(v.items) == len(ty.args):
            return ty.sort().constructor(0)(*[coerce_term(i, t) for i, t in zip(v.items, ty.args)])
        if isinstance(v, TupV) and ty.kind == "seq":
            return to_term(tup_to_seq(v, ty.args[0]))
        raise Unsupported(f"coerce {v.ty} to {ty}")
    return to_term(v)


def settle(v, ty):
    """give a still untyped (empty) container its type"""
    if isinstance(v, SetV) and v.ety is None and ty.kind == "set":
        v.ety = ty.args[0]
        v.arr = z3.K(v.ety.sort(), z3.BoolVal(False))
    elif isinstance(v, SeqV) and v.ety is None and ty.kind == "seq":
        v.ety = ty.args[0]
        v.arr = z3.Const("nil_" + v.ety.name, z3.ArraySort(z3.IntSort(), v.ety.sort()))
    elif isinstance(v, MapV) and v.kty is None and ty.kind == "map":
        v.kty, v.vty = ty.args
        v.dom = z3.K(v.kty.sort(), z3.BoolVal(False))
        v.arr = z3.Const("nilmap_" + v.ty.name, z3.ArraySort(v.kty.sort(), v.vty.sort()))


def tup_to_seq(v, ety=None):
    if ety is None:
        if not v.items:
            return SeqV(None, z3.IntVal(0), None)
        ety = v.items[0].ty
        if ety is None:
            raise Unsupported("list of untyped values")
        if any(i.ty != ety for i in v.items):
            if all(isinstance(i, Sc) and i.ty in (INT, REAL, BOOL) for i in v.items):
                ety = REAL
            else:
                raise Unsupported("heterogeneous list")
    arr = z3.Const("nil_" + ety.name, z3.ArraySort(z3.IntSort(), ety.sort()))
    for k, i in enumerate(v.items):
        arr = z3.Store(arr, k, coerce_term(i, ety))
    return SeqV(ety, z3.IntVal(len(v.items)), arr, v.kind)


def from_term(ty, term):
    k = ty.kind
    if k in SCALARS:
        return Sc(ty, term)
    if k == "set":
        return SetV(ty.args[0], term)
    s = ty.sort()
    acc = lambda i: z3.simplify(s.accessor(0, i)(term))
    if k == "seq":
        return SeqV(ty.args[0], acc(0), acc(1))
    if k == "map":
        return MapV(ty.args[0], ty.args[1], acc(0), acc(1))
    if k == "tup":
        return TupV([from_term(t, acc(i)) for i, t in enumerate(ty.args)])
    raise Unsupported(str(ty))


def as_type(v, ty):
    """v seen at type ty where that is only a matter of giving empty containers their type; v itself otherwise"""
    try:
        if isinstance(v, TupV) and ty.kind == "seq":
            return tup_to_seq(v, ty.args[0]) if v.items else settled(SeqV(None, z3.IntVal(0), None), ty)
        if v.ty is None:
            settle(v, ty)
    except Unsupported:
        pass
    return v


def settled(v, ty):
    settle(v, ty)
    return v
