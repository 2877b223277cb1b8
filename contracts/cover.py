from pyvc.contract import *
from pyvc.spec import *

ISET = SetT(OBJ)
TIDS = SetT(INT)
VERT = MapT(OBJ, TIDS)
COV = MapT(ISET, TIDS)
SLIM = "skmine/itemsets/slim.py"


def sing(k):
    return z3.Store(z3.K(OBJ.sort(), F_), k, T)


def covered_by(covers_arr, X, k, t):
    return And(Select(X, k), Select(Select(covers_arr, X), t))


class Cover(Contract):
    """every occurrence (item, tid) is covered by at most one itemset; covered or residual = original;
    no itemset that was processed still fits in the residual."""
    target = f"{SLIM}::cover"
    modifies = (0,)

    def make_args(self, I):
        return [I.fresh_val("sct", VERT), I.fresh_val("itemsets", SeqT(ISET))]

    def requires(self, F):
        sct, its = F.args
        j, l = ints(2)
        k = bv(OBJ, "k")
        X = lambda j: Select(its.arr, j)
        return [("known-items", FA([j, k], Implies(And(rng(j, 0, its.n), Select(X(j), k)), Select(sct.dom, k)))),
                ("distinct", FA([j, l], Implies(And(0 <= j, j < l, l < its.n), X(j) != X(l))))]

    def facts(self, sct0, sct, its, cov, i):
        j, l, t = ints(3)
        k, k2 = bv(OBJ, "k"), bv(OBJ, "k")
        X = lambda j: Select(its.arr, j)
        U = lambda j: Select(cov.arr, X(j))
        S0 = lambda k, t: Select(Select(sct0.arr, k), t)
        S = lambda k, t: Select(Select(sct.arr, k), t)
        Y = bv(ISET, "Y")
        return [
            ("domain", FA(Y, Select(cov.dom, Y) == EX(j, And(rng(j, 0, i), X(j) == Y)))),
            ("keys-kept", FA(k, Select(sct.dom, k) == Select(sct0.dom, k))),
            ("residual", FA([k, t], Implies(S(k, t), S0(k, t)))),
            ("sound", FA([j, k, t], Implies(And(rng(j, 0, i), Select(X(j), k), Select(U(j), t)), And(
                S0(k, t), Not(S(k, t)))), [z3.MultiPattern(Select(X(j), k), Select(U(j), t))])),
            ("once", FA([j, l, k, t], Implies(And(0 <= j, j < l, l < i, Select(X(j), k), Select(X(l), k),
                                                  Select(U(j), t)), Not(Select(U(l), t))),
                        [z3.MultiPattern(Select(X(j), k), Select(X(l), k), Select(U(j), t), Select(U(l), t))])),
            ("complete", FA([k, t], Implies(And(S0(k, t), Not(S(k, t))), EX(j, And(
                rng(j, 0, i), Select(X(j), k), Select(U(j), t)))))),
            ("maximal", FA([j, t, k], Implies(And(rng(j, 0, i), Select(X(j), k), Not(Select(U(j), t))), EX(k2, And(
                Select(X(j), k2), Or(Not(S0(k2, t)), EX(l, And(0 <= l, l < j, Select(X(l), k2), Select(U(l), t))))))),
                [z3.MultiPattern(Select(U(j), t), Select(X(j), k))])),
            ("exhausted", FA([j, k, t], Implies(And(rng(j, 0, i), X(j) == sing(k)), Not(S(k, t))),
                             [z3.MultiPattern(X(j), S(k, t))])),
        ]

    def ensures(self, F, res):
        sct, its = F.args
        sct0 = F.old[0]
        settle(res, COV)
        return self.facts(sct0, sct, its, res, its.n)

    def fresh_result(self, I, F):
        return I.fresh_val("covers", COV)

    def loop_spec(self, L, ordn, depth):
        if depth == 0 and L.itv is not None and isinstance(L.itv, SeqV) and L.itv.ety == ISET:
            return LoopSpec(lambda L, i: self.facts(L.F.old[0], L.F.args[0], L.F.args[1], L.var("covers", COV), i))
        if isinstance(L.itv, SetV) and L.itv.ety == OBJ:
            def inv(L, i):
                m = L.F.args[0]
                m0 = L.old(m)
                k, x = bv(OBJ, "k"), bv(INT, "t")
                n, e, pos = L.I.last_enum if not hasattr(L, "en") else L.en
                L.en = (n, e, pos)
                u = L.var("usage", TIDS)
                done = lambda k: And(Select(L.itv.arr, k), pos(k) < i)
                return [("keys", FA(k, Select(m.dom, k) == Select(m0.dom, k))),
                        ("cut", FA([k, x], Select(Select(m.arr, k), x) == And(
                            Select(Select(m0.arr, k), x), Not(And(done(k), Select(u.arr, x))))))]
            return LoopSpec(inv)
        return None
