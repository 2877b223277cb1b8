"""rescaling of times (skmine/periodic/cycles.py)"""
from pyvc.contract import *
from pyvc.spec import *
from pyvc import lib as L

MOD = "skmine/periodic/cycles.py"
TS = SeqT(INT)
UNITS = [("second", 1), ("minute", 60), ("hour", 3600), ("day", 86400)]


def times(I, name):
    v = I.fresh_val(name, TS)
    v.kind = "array"
    return v


def p10(k, x):
    """x * 10**k for 0 <= k <= 9"""
    r = x
    for d in range(1, 10):
        r = If(k == d, x * 10 ** d, r)
    return r


def dtype(I, base, attr, line):
    if attr == "dtype" and isinstance(base, SeqV) and base.kind == "array" and base.ety == INT:
        L.used(I, "integer times are int64 arrays without overflow")
        return FnV("global", name="numpy.int64")


def same(a, b):
    j = ints(1)
    return And(a.n == b.n, FA(j, Implies(rng(j, 0, a.n), Select(a.arr, j) == Select(b.arr, j)), [Select(a.arr, j)]))


class Nano(Contract):
    """divides by the largest common power of ten, at most 10**9; multiplying back gives the times"""
    target = f"{MOD}::_shift_from_nano_to_sec"
    attr_hooks = [dtype]

    def make_args(self, I):
        return [times(I, "times")]

    def facts(self, t, c, k):
        j = ints(1)
        return [("power", And(0 <= k, k <= 9)), ("length", c.n == t.n),
                ("exact", FA(j, Implies(rng(j, 0, t.n), Select(t.arr, j) == p10(k, Select(c.arr, j))), [Select(c.arr, j)])),
                ("exact'", FA(j, Implies(rng(j, 0, t.n), Select(t.arr, j) == p10(k, Select(c.arr, j))), [Select(t.arr, j)]))]

    def ensures(self, F, res):
        t = F.old[0]
        c, k = res.items[0], res.items[1].term
        j = ints(1)
        return self.facts(t, c, k) + [
            ("largest", Or(k == 9, EX(j, And(rng(j, 0, t.n), Select(c.arr, j) % 10 != 0)))),
            ("argument-unchanged", same(t, F.args[0]))]

    def fresh_result(self, I, F):
        return TupV([times(I, "shifted"), I.fresh_val("digits", INT)])

    def loop_spec(self, L_, ordn, depth):
        def inv(L_, i):
            c, k = L_.mod_of(TS), L_.mod_of(INT).term
            return self.facts(L_.F.old[0], c, k) + [("argument", same(L_.F.old[0], L_.F.args[0]))]
        return LoopSpec(inv, lambda L_: 9 - L_.mod_of(INT).term)


class Upper(Contract):
    """takes the coarsest of second, minute, hour, day in which every time is a whole number"""
    target = f"{MOD}::shift_from_sec_to_upper_unit"

    def make_args(self, I):
        return [times(I, "seconds")]

    def ensures(self, F, res):
        t = F.old[0]
        c, d, r = res.items
        j = ints(1)
        out = [("length", c.n == t.n), ("unit", Or(*[And(d.term == u, r.term == StrV(n).term) for n, u in UNITS])),
               ("exact", FA(j, Implies(rng(j, 0, t.n), Or(*[And(d.term == u, Select(t.arr, j) == Select(c.arr, j) * u)
                                                         for _, u in UNITS])), [Select(c.arr, j)]))]
        for n, u in UNITS[1:]:
            out.append(("coarsest-" + n, Or(d.term >= u, EX(j, And(rng(j, 0, t.n), Select(t.arr, j) % u != 0)))))
        return out + [("argument-unchanged", same(t, F.args[0]))]

    def fresh_result(self, I, F):
        return TupV([times(I, "converted"), I.fresh_val("div", INT), I.fresh_val("resolution", OBJ)])


class AutoScale(Contract):
    """the composition: powers of ten first, units above the second only when whole seconds remain"""
    target = f"{MOD}::autoscale_time_unit"

    def make_args(self, I):
        return [times(I, "times"), I.fresh_val("verbose", BOOL)]

    def ensures(self, F, res):
        t = F.old[0]
        c, k, r, d = res.items
        j = ints(1)
        k, d = k.term, d.term
        tj, cj = Select(t.arr, j), Select(c.arr, j)
        out = [("length", c.n == t.n), ("power", And(0 <= k, k <= 9)),
               ("unit", Or(And(k < 9, d == 1), And(k == 9, Or(*[And(d == u, r.term == StrV(n).term) for n, u in UNITS])))),
               ("multiplying-back", FA(j, Implies(rng(j, 0, t.n), Or(*[And(d == u, tj == p10(k, cj * u)) for _, u in UNITS])),
                                       [cj]))]
        out.append(("largest-power", Or(k == 9, EX(j, And(rng(j, 0, t.n), tj % p10(k + 1, z3.IntVal(1)) != 0)))))
        for n, u in UNITS[1:]:
            out.append(("coarsest-" + n, Or(k < 9, d >= u, EX(j, And(rng(j, 0, t.n), tj % (u * 10 ** 9) != 0)))))
        return out + [("argument-unchanged", same(t, F.args[0]))]
