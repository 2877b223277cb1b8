"""families of itemsets: maximal / minimal elements (skmine/utils.py)"""
from pyvc.contract import *
from pyvc.spec import *
from pyvc import lib as L, theory

ISET = SetT(OBJ)
FAM = SeqT(ISET)
UTILS = "skmine/utils.py"


mark = theory.mark


def incl(A, B):
    return theory.subset_fn(OBJ)(A, B)


def strict(A, B):
    return And(incl(A, B), Not(incl(B, A)))


def elems(I, v):
    """the set of elements of a family"""
    if isinstance(v, SetV):
        if v.ety is None:
            settle(v, SetT(ISET))
        return v.arr
    if v.ety is None:
        settle(v, FAM)
    c = getattr(v, "elems", None)
    if c is None or not (c[0].eq(v.arr) and c[1].eq(v.n)):
        c = v.elems = (v.arr, v.n, L.seq_to_set(I, v).arr)
    return c[2]


class Extremal(Contract):
    """the result holds exactly the elements of the family with no strict superset (subset) in it; and every
    element of the family has a superset (subset) in the result"""
    less = None

    def make_args(self, I):
        return [I.fresh_val("itemsets", FAM)]

    def adapt_args(self, I, vals):
        return [L.list_of(I, vals[0])]

    def facts(self, I, S, n, R, m):
        """R: extremal elements among the first m of S, an enumeration by size"""
        j, k, l = ints(3)
        X, Y = bv(ISET, "X"), bv(ISET, "Y")
        E = lambda j: Select(S, j)
        return [
            ("sound", FA([X], Implies(Select(R, X), EX(j, And(rng(j, 0, m), E(j) == X))), [Select(R, X)])),
            ("extremal", FA([X, k], Implies(And(Select(R, X), rng(k, 0, m)), Not(self.less(X, E(k)))),
                            [z3.MultiPattern(Select(R, X), E(k))])),
            ("dominated", FA(j, Implies(rng(j, 0, m), EX(Y, And(Select(R, Y), Or(Y == E(j), self.less(E(j), Y))))),
                             [E(j)])),
        ]

    def ensures(self, F, res):
        I = F.I
        S = F.old[0]
        if getattr(F, "caller", False):
            if S.ety is None:
                return [("empty", res.n == 0)]
            R = elems(I, res)
            X, Y = bv(ISET, "X"), bv(ISET, "Y")
            SE = elems(I, S)
            dom = I.fresh_fn("dom", ISET.sort(), ISET.sort())
            return [("among", FA(X, Implies(Select(R, X), Select(SE, X)), [Select(R, X)])),
                    ("extremal", FA([X, Y], Implies(And(Select(R, X), Select(SE, Y)), Not(self.less(X, Y))),
                                    [z3.MultiPattern(Select(R, X), Select(SE, Y), incl(X, Y)),
                                     z3.MultiPattern(Select(R, X), Select(SE, Y), incl(Y, X))])),
                    # the witness of "dominated", chosen to be X itself when X is extremal
                    ("dominated", FA(X, Implies(Select(SE, X), And(Select(R, dom(X)), self.leq(X, dom(X)), Implies(
                        Select(R, X), dom(X) == X))), [Select(SE, X)]))]
        return self.facts(I, S.arr, S.n, elems(I, res), S.n) + self.exact(S, elems(I, res))

    def exact(self, S, R):
        j, k = ints(2)
        return [("complete", FA(j, Implies(And(rng(j, 0, S.n), FA(k, Implies(rng(k, 0, S.n), Not(
            self.less(Select(S.arr, j), Select(S.arr, k)))))), Select(R, Select(S.arr, j)))))]

    def fresh_result(self, I, F):
        return I.fresh_val("extremal", FAM)

    def loop_spec(self, L_, ordn, depth):
        if isinstance(L_.itv, SeqV) and L_.itv.ety == ISET:
            def inv(L_, i):
                R = L_.mod_of(SetT(ISET))
                return self.facts(L_.I, L_.itv.arr, L_.itv.n, R.arr, i)
            return LoopSpec(inv)
        return None


class FilterMaximal(Extremal):
    target = f"{UTILS}::filter_maximal"
    less = staticmethod(strict)
    leq = staticmethod(incl)


class FilterMinimal(Extremal):
    target = f"{UTILS}::filter_minimal"
    less = staticmethod(lambda A, B: strict(B, A))
    leq = staticmethod(lambda A, B: incl(B, A))


MBD = "skmine/emerging/mbdldorber.py"


class BorderDiff(Contract):
    """<L, {U}> denotes exactly the subsets of U contained in no set of S; L is an antichain of subsets of U"""
    target = f"{MBD}::border_diff"

    def make_args(self, I):
        return [I.fresh_val("U", ISET), I.fresh_val("S", FAM)]

    def adapt_args(self, I, vals):
        return [vals[0], L.list_of(I, vals[1])]

    def facts(self, I, U, S, L2, m):
        R = elems(I, L2)
        X, Y, Z = bv(ISET, "X"), bv(ISET, "Y"), bv(ISET, "Z")
        j = ints(1)
        E = lambda j: Select(S.arr, j)
        return [
            ("sound", FA([X, Y, j], Implies(And(Select(R, Y), incl(Y, X), rng(j, 0, m)), Not(incl(X, E(j)))),
                         [z3.MultiPattern(Select(R, Y), incl(X, E(j)))])),
            ("complete", FA(X, Implies(And(mark(X), incl(X, U), FA(j, Implies(rng(j, 0, m), Not(incl(X, E(j)))), [E(j)])),
                                       EX(Y, And(Select(R, Y), incl(Y, X)), [Select(R, Y)])), [mark(X)])),
            ("antichain", FA([Y, Z], Implies(And(Select(R, Y), Select(R, Z)), Not(strict(Y, Z))),
                             [z3.MultiPattern(Select(R, Y), Select(R, Z), incl(Y, Z))])),
            ("inside", FA(Y, Implies(Select(R, Y), incl(Y, U)), [Select(R, Y)])),
        ]

    def ensures(self, F, res):
        if not (isinstance(res, TupV) and len(res.items) == 2):
            return [("pair", F_)]
        L2, U2 = res.items
        U, S = F.old
        if S.ety is None:
            settle(S, FAM)
        L2 = as_type(L2, FAM)
        return self.facts(F.I, U.arr, S, L2, S.n) + [("right", U2.arr == U.arr)]

    def fresh_result(self, I, F):
        return TupV([I.fresh_val("L2", FAM), F.args[0]])

    def loop_spec(self, L_, ordn, depth):
        if depth == 0 and isinstance(L_.itv, RangeV):
            return LoopSpec(lambda L_, i: self.facts(L_.I, L_.F.old[0].arr, L_.F.old[1], L_.mod_of(FAM),
                                                     If(L_.F.old[1].n > 0, i + 1, 0)))
        return None


BORD = TupT(FAM, ISET)


class MBDLLBorder_(Contract):
    """the borders denote exactly the subsets of sets of the second family contained in no set of the first"""
    target = f"{MBD}::mbdllborder"

    def make_args(self, I):
        return [I.fresh_val("isets1", FAM), I.fresh_val("isets2", FAM)]

    def facts(self, I, A, B, res, m):
        k, j, e, p = ints(4)
        X = bv(ISET, "X")
        srt, fs = BORD.sort(), FAM.sort()
        b = lambda k: Select(res.arr, k)
        left = lambda k: srt.accessor(0, 0)(b(k))
        Ln, La = (lambda k: fs.accessor(0, 0)(left(k))), (lambda k, j: Select(fs.accessor(0, 1)(left(k)), j))
        U = lambda k: srt.accessor(0, 1)(b(k))
        E1, E2 = (lambda e: Select(A.arr, e)), (lambda p: Select(B.arr, p))
        I.seed(fs.accessor(0, 1)(left(res.n - 1)))
        inL = lambda k, j: And(rng(k, 0, res.n), rng(j, 0, Ln(k)))
        return [
            ("right", FA(k, Implies(rng(k, 0, res.n), EX(p, And(rng(p, 0, m), U(k) == E2(p)), [E2(p)])), [b(k)])),
            ("inside", FA([k, j], Implies(inL(k, j), incl(La(k, j), U(k))), [La(k, j)])),
            ("antichain", FA([k, j, p], Implies(And(inL(k, j), inL(k, p)), Not(strict(La(k, j), La(k, p)))),
                             [z3.MultiPattern(La(k, j), La(k, p), incl(La(k, j), La(k, p)))])),
            ("sound", FA([k, j, e], Implies(And(inL(k, j), rng(e, 0, A.n)), Not(incl(La(k, j), E1(e)))),
                         [z3.MultiPattern(La(k, j), E1(e))])),
            ("complete", FA([p, X], Implies(And(mark(X), rng(p, 0, m), incl(X, E2(p)), FA(e, Implies(rng(e, 0, A.n), Not(
                incl(X, E1(e)))), [E1(e)])), EX([k, j], And(inL(k, j), U(k) == E2(p), incl(La(k, j), X)), [La(k, j)])),
                [z3.MultiPattern(mark(X), incl(X, E2(p)))])),
        ]

    def ensures(self, F, res):
        A, B = F.old
        return self.facts(F.I, A, B, as_type(res, SeqT(BORD)), B.n)

    def loop_spec(self, L_, ordn, depth):
        if depth == 0:
            return LoopSpec(lambda L_, i: self.facts(L_.I, L_.F.old[0], L_.F.old[1], L_.mod_of(SeqT(BORD)), i))
        return None
