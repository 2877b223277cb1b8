"""supports, cover order and views of the SLIM code table (skmine/itemsets/slim.py)"""
from pyvc.contract import *
from pyvc.spec import *
from pyvc import lib as L, theory

MOD = "skmine/itemsets/slim.py"
ME = f"{MOD}::SLIM"
IS, OS = z3.IntSort(), OBJ.sort()
TIDS = SetT(INT)


class Support(Contract):
    """the transactions that hold all the items"""
    target = f"{ME}.get_support"
    decorators = ("lru_cache",)

    def make_args(self, I):
        return [RecV(ME, {"standard_codetable_": I.fresh_val("sct", MapT(OBJ, TIDS))}), I.fresh_val("items", SeqT(OBJ))]

    def adapt_args(self, I, vals):
        out = list(vals)
        if isinstance(out[1], TupV):
            out[1] = tup_to_seq(out[1])
        settle(out[1], SeqT(OBJ))
        return out

    def requires(self, F):
        m, s, j = F.args[0].attrs["standard_codetable_"], F.args[1], ints(1)
        out = [("some-item", s.n >= 1), ("known", FA(j, Implies(rng(j, 0, s.n), Select(m.dom, Select(s.arr, j))), [Select(s.arr, j)]))]
        if getattr(F, "caller", False) and type(F.I.c) is type(self):
            out.append(("terminates", s.n < F.I.F.old[1].n))
        return out

    def setup(self, I, F):
        L.used(I, "functools.lru_cache: the function returns what its body computes for these arguments (the cache is cleared with the data, see P02)")

    def fresh_result(self, I, F):
        return I.fresh_val("support", TIDS)

    def ensures(self, F, res):
        m, s, j, t = F.old[0].attrs["standard_codetable_"], F.old[1], ints(1), ints(1)
        settle(res, TIDS)
        w = theory.fn("item_missing_at", z3.ArraySort(IS, OS), IS, IS, IS)(s.arr, s.n, t)
        has = lambda j, t: Select(Select(m.arr, Select(s.arr, j)), t)
        now = F.args[0].attrs["standard_codetable_"]
        return [("in-all", FA([t, j], Implies(And(Select(res.arr, t), rng(j, 0, s.n)), has(j, t)), [z3.MultiPattern(Select(res.arr, t), Select(s.arr, j))])),
                ("all-in", FA(t, Or(Select(res.arr, t), EX(j, And(rng(j, 0, s.n), Not(has(j, t))))), [Select(res.arr, t)])),
                ("unchanged", And(now.dom == m.dom, now.arr == m.arr))]


class CoverOrder(Contract):
    """longer first, then more frequent first, then the items"""
    target = f"{ME}._standard_cover_order"

    def make_args(self, I):
        return [RecV(ME, {"standard_codetable_": I.fresh_val("sct", MapT(OBJ, TIDS))}), I.fresh_val("itemset", SetT(OBJ))]

    def requires(self, F):
        m, s, x = F.args[0].attrs["standard_codetable_"], F.args[1], bv(OBJ)
        c = theory.card_fn(OBJ)(s.arr)
        return [("known", FA(x, Implies(Select(s.arr, x), Select(m.dom, x)), [Select(s.arr, x)])), ("some-item", c >= 1),
                ("finite", FA(x, Implies(Select(m.dom, x), theory.card_fn(INT)(Select(m.arr, x)) >= 0), [Select(m.arr, x)]))]

    def after_call(self, I, c, F, res):
        if isinstance(c, Support):
            I.F.g["support"] = res

    def ensures(self, F, res):
        if not (isinstance(res, TupV) and len(res.items) == 3 and "support" in F.g):
            return [("form", F_)]
        m, s, t, x = F.old[0].attrs["standard_codetable_"], F.old[1], ints(1), bv(OBJ)
        S = F.g["support"]
        has = lambda x, t: Select(Select(m.arr, x), t)
        return [("length", res.items[0].term == -theory.card_fn(OBJ)(s.arr)), ("frequency", res.items[1].term == -theory.card_fn(INT)(S.arr)),
                ("support", FA(t, Select(S.arr, t) == FA(x, Implies(Select(s.arr, x), has(x, t)), [Select(s.arr, x)])))]
