"""code table of SLIM (skmine/itemsets/slim.py)"""
from pyvc.contract import *
from pyvc.spec import *
from pyvc import lib as L, theory
from pyvc.engine import Mismatch
from contracts.vertical import Holds
from contracts.cover import ISET, TIDS, VERT, COV, SLIM, sing

CLS = f"{SLIM}::SLIM"
iset, sub, card = ISET.sort(), theory.subset_fn(OBJ), theory.card_fn(OBJ)
ISETS, MAPARR = z3.ArraySort(iset, z3.BoolSort()), z3.ArraySort(iset, TIDS.sort())
TAB = z3.DeclareSort("CodeTable")
CONTENT = z3.Function("content", ISETS, MAPARR, TAB)      # what a table says: the used itemsets with their usage
DS, MS = z3.Function("data_size", TAB, z3.RealSort()), z3.Function("model_size", TAB, z3.RealSort())
WX = z3.Function("differ_at", ISETS, MAPARR, ISETS, MAPARR, iset)
WT = z3.Function("differ_tid", ISETS, MAPARR, ISETS, MAPARR, z3.IntSort())
if "content" not in theory.REG:
    d1, d2, a1, a2 = (bv(s, "c") for s in (ISETS, ISETS, MAPARR, MAPARR))
    x, t = WX(d1, a1, d2, a2), WT(d1, a1, d2, a2)
    theory.REG["content"] = [FA([d1, a1, d2, a2], Or(CONTENT(d1, a1) == CONTENT(d2, a2),
                                                     And(Select(d1, x), Select(Select(a1, x), t)) != And(Select(d2, x), Select(Select(a2, x), t))),
                                [z3.MultiPattern(CONTENT(d1, a1), CONTENT(d2, a2))])]


def content(m):
    return CONTENT(m.dom, m.arr)


def table(ct, std, what="known single filled sound once complete"):
    """ct covers each occurrence (item, tid) of std exactly once, and nothing else; every item has its singleton"""
    X, Y, k, t = bv(ISET, "X"), bv(ISET, "Y"), bv(OBJ, "k"), ints(1)
    U = lambda X: Select(ct.arr, X)
    S0 = Select(Select(std.arr, k), t)
    out = [("known", FA([X, k], Implies(And(Select(ct.dom, X), Select(X, k)), Select(std.dom, k)), [z3.MultiPattern(Select(ct.dom, X), Select(X, k))])),
           ("single", FA(k, Implies(Select(std.dom, k), Select(ct.dom, sing(k))), [sing(k)])),
           ("filled", FA(X, Implies(Select(ct.dom, X), card(X) > 0), [z3.MultiPattern(Select(ct.dom, X), card(X))])),
           ("sound", FA([X, k, t], Implies(And(Select(ct.dom, X), Select(X, k), Select(U(X), t)), And(Select(std.dom, k), S0)),
                        [z3.MultiPattern(Select(X, k), Select(U(X), t))])),
           ("once", FA([X, Y, k, t], Implies(And(Select(ct.dom, X), Select(ct.dom, Y), Select(X, k), Select(Y, k), Select(U(X), t), Select(U(Y), t)), X == Y),
                       [z3.MultiPattern(Select(X, k), Select(Y, k), Select(U(X), t), Select(U(Y), t))])),
           ("complete", FA([k, t], Implies(And(Select(std.dom, k), S0), EX(X, And(Select(ct.dom, X), Select(X, k), Select(U(X), t)))), [S0]))]
    return [(n, f) for n, f in out if n in what.split()]


def same_map(a, b):
    if a.dom.eq(b.dom) and a.arr.eq(b.arr):
        return T
    x = bv(a.kty, "x")
    return FA(x, And(Select(a.dom, x) == Select(b.dom, x), Implies(Select(a.dom, x), Select(a.arr, x) == Select(b.arr, x))))


def some_data(std):
    k, t = bv(OBJ, "k"), ints(1)
    return EX([k, t], And(Select(std.dom, k), Select(Select(std.arr, k), t)))


def _bisect(I, s, a, k, line):
    L.used(I, "sortedcontainers.SortedDict.bisect: a position of the enumeration of the keys")
    n, get, _ = I.enum_map(s)
    b = I.fresh_val("bisect", INT)
    I.assume(And(0 <= b.term, b.term <= n))
    return b


class _Slim(Contract):
    world_methods = {("MapV", "bisect"): _bisect, ("MapV", "bisect_right"): _bisect, ("MapV", "bisect_left"): _bisect}

    def make_self(self, I):
        return RecV(CLS, {"codetable_": I.fresh_val("codetable", COV), "standard_codetable_": I.fresh_val("standard", VERT),
                          "pruning": I.fresh_val("pruning", BOOL), "data_size_": I.fresh_val("data_size", REAL),
                          "model_size_": I.fresh_val("model_size", REAL), "max_time": I.fresh_val("max_time", INT)})

    def after_call(self, I, callee, F, res):
        """a cover of a copy of the data, by known itemsets among which every singleton, is an exact table"""
        if callee.short != "cover" or I.bound or not isinstance(F.args[1], SeqV):
            return
        std, D, its = I.F.args[0].attrs["standard_codetable_"], F.old[0], F.args[1]
        k, j, t = bv(OBJ, "k"), *ints(2)
        X = lambda j: Select(its.arr, j)
        S = lambda k, t: Select(Select(std.arr, k), t)
        at = I.fresh_fn("listed_at", OBJ.sort(), z3.IntSort())
        mine = lambda f: I.fact_names.get(f.get_id(), "").startswith("cover.")
        facts, rest = [f for f in I.pc if mine(f)], [f for f in I.pc if not mine(f)]
        I.pc = rest
        I.prove("cover.of-the-data", FA(k, And(Select(D.dom, k) == Select(std.dom, k), Implies(Select(std.dom, k), Select(D.arr, k) == Select(std.arr, k)))))
        I.prove("cover.singletons-listed", FA(k, Implies(Select(std.dom, k), EX(j, And(rng(j, 0, its.n), X(j) == sing(k))))))
        members = FA(j, Implies(rng(j, 0, its.n), card(X(j)) > 0), [X(j)])
        known = FA([j, k], Implies(And(rng(j, 0, its.n), Select(X(j), k)), Select(std.dom, k)), [Select(X(j), k)])
        I.prove("cover.filled", members)
        I.prove("cover.known", known)
        I.pc = facts + [members, known, D.dom == std.dom, FA(k, Implies(Select(std.dom, k), Select(D.arr, k) == Select(std.arr, k)), [Select(D.arr, k)]),
                        FA([k, t], Implies(Select(std.dom, k), And(rng(at(k), 0, its.n), X(at(k)) == sing(k))), [at(k)]),
                        FA([k, t], Or(at(k) >= 0, at(k) < 0), [S(k, t)])]
        I.F.g["covered"] = clone(res, {})
        new = table(res, std)
        for n, f in new:
            I.prove("cover.table." + n, f)
        dom = [f for f in facts if I.fact_names[f.get_id()] == "cover.domain"]
        r, ct = getattr(its, "rm_val", None), I.F.args[1]
        if r is not None and isinstance(ct, MapV):
            # the itemsets are those of the table, without the one that was removed
            Y = bv(ISET, "Y")
            keys = FA(Y, Select(res.dom, Y) == And(Select(ct.dom, Y), Y != r), [Select(res.dom, Y), Select(ct.dom, Y)])
            I.pc = rest + dom
            I.prove("cover.keys", FA(Y, Select(res.dom, Y) == And(Select(ct.dom, Y), Y != r)))
            dom = [keys]
        I.pc = rest + dom + [f for n, f in new]

    def frame(self, F, attrs=("codetable_", "standard_codetable_")):
        """these attributes are what they were"""
        out = []
        for a in attrs:
            now, was = F.args[0].attrs[a], F.old[0].attrs[a]
            out.append((f"unchanged.{a}", same_map(now, was) if isinstance(now, MapV) else now.term == was.term if isinstance(now, Sc) else F_))
        return out


MSUM, ISUM, LG = theory.mapsum_fn(iset), theory.mapsum_fn(OBJ.sort()), theory.log2_fn()
icard = theory.card_fn(ISET)


def _zip(I, a, k, line):
    """zip(*pairs): the first components, the second components"""
    v = a[0].val if len(a) == 1 and isinstance(a[0], FnV) and a[0].kind == "star" else None
    v = getattr(v, "seq", v) if isinstance(v, GenV) else v
    if not (isinstance(v, SeqV) and v.ety == TupT(ISET, INT)):
        return I.world.b_zip(I, a, k, line)
    L.used(I, "zip(*pairs): the sequence of the first components and that of the second components")
    out, s = [], v.ety.sort()
    for i, ty in enumerate((ISET, INT)):
        arr, j = I.fresh("column", z3.ArraySort(z3.IntSort(), ty.sort())), ints(1)
        I.forall2([j], Implies(rng(j, 0, v.n), Select(arr, j) == s.accessor(0, i)(Select(v.arr, j))), [Select(arr, j)], Select(v.arr, j))
        out.append(SeqV(ty, v.n, arr, "tuple"))
    I.F.g["isets"] = out[0]
    I.safe("ValueError", v.n > 0, line, "ValueError")
    return TupV(out)


def _chain(I, a, k, line):
    if len(a) == 1 and not k and isinstance(a[0], FnV) and a[0].kind == "star" and isinstance(a[0].val, SeqV) and a[0].val.ety == ISET:
        return FnV("chained", val=a[0].val)
    raise Unsupported("chain")


def _counter(I, a, k, line):
    """for each object, how many of these different sets hold it"""
    if not (len(a) == 1 and not k and isinstance(a[0], FnV) and a[0].kind == "chained"):
        raise Unsupported("Counter")
    L.used(I, "Counter(chain(*sets)): for each element, in how many of the sets it is (of different sets: the number of sets that hold it)")
    s, g = a[0].val, I.F.g
    i, j, x, X = *ints(2), bv(OBJ, "x"), bv(ISET, "X")
    I.prove("lemma.different", FA([i, j], Implies(And(0 <= i, i < j, j < s.n), Select(s.arr, i) != Select(s.arr, j))), kind="lemma")
    I.prove("lemma.all-used", FA(i, Implies(rng(i, 0, s.n), Select(g["used"], Select(s.arr, i)))), kind="lemma")
    I.prove("lemma.no-other", FA(X, Implies(Select(g["used"], X), EX(j, And(rng(j, 0, s.n), Select(s.arr, j) == X)))), kind="lemma")
    m = I.fresh_val("counts", MapT(OBJ, INT))
    I.pc += [m.dom == g["items"], FA(x, Implies(Select(m.dom, x), Select(m.arr, x) == icard(g["holding"](x))), [Select(m.arr, x)])]
    g["counts"] = m
    return m


def summed(I, s, r):
    """a sum over numbers that follow the used itemsets, or their items"""
    g = I.F.g
    q = g.get("isets")
    if I.bound or I.typing or q is None or s.ety not in (INT, REAL):
        return
    val = lambda j: R(Select(s.arr, j)) if s.ety == INT else Select(s.arr, j)
    tot = R(r.term) if r.ty == INT else r.term
    m, done = g.get("counts"), g.setdefault("summed", set())
    if m is not None and m.order is not None and m.order[0].eq(s.n):
        n, e = m.order
        j = ints(1)
        if I.try_lemma("sum-of-items", FA(j, Implies(rng(j, 0, n), val(j) == Select(g["ic"], Select(e, j))))):
            I.assume(tot == ISUM(g["items"], g["ic"]))
        return
    for name in ("sz",) if s.ety == INT else [x for x in ("code", "dv") if x not in done] + sorted(done - {"sz"}):
        j = ints(1)
        if I.try_lemma("sum-of-" + name, And(s.n == q.n, FA(j, Implies(rng(j, 0, q.n), val(j) == Select(g[name], Select(q.arr, j)))))):
            L.used(I, "the sum over a finite set does not depend on the order of its elements")
            I.assume(tot == MSUM(g["used"], g[name]))
            done.add(name)
            return


def _sumof(I, s, a, k, line):
    """the sum over a sequence that follows the used itemsets"""
    r = I.world.b_sum(I, [s], {}, line)
    summed(I, s, r)
    return r


def _sum(I, a, k, line):
    r = I.world.b_sum(I, a, k, line)
    v = getattr(a[0], "seq", a[0])
    if isinstance(v, SeqV):
        summed(I, v, r)
    return r


class Sizes(_Slim):
    """(data size, model size) of a table in which something is used: a code of -log2 of its share of the usages for each used itemset;
    data: the codes times the usages; model: the codes, and the codes of the items of the used itemsets in the table of singletons"""
    target = f"{CLS}._compute_sizes"
    world_extra = {"zip": _zip, "sum": _sum, "itertools.chain": _chain, "collections.Counter": _counter}
    world_methods = {**_Slim.world_methods, ("SeqV", "sum"): _sumof}

    def make_args(self, I):
        me = self.make_self(I)
        me.attrs["_starting_codes"] = I.fresh_val("codes", MapT(OBJ, REAL))
        return [me, I.fresh_val("table", COV)]

    def requires(self, F):
        ct = as_type(F.args[1], COV)
        X, t = bv(ISET, "X"), ints(1)
        return [("something-used", EX([X, t], And(Select(ct.dom, X), Select(Select(ct.arr, X), t))))]

    def setup(self, I, F):
        self.sizes(I, F.g, F.old[1], F.old[0].attrs["_starting_codes"])

    @staticmethod
    def sizes(I, g, ct, codes, coded=True):
        """what the sizes are"""
        X, k, k2 = bv(ISET, "X"), bv(OBJ, "k"), bv(OBJ, "k")
        U = g["used"] = I.fresh("used", ISETS)
        num = lambda n: I.fresh(n, z3.ArraySort(iset, z3.RealSort()))
        sz, code, dv = g["sz"], g["code"], g["dv"] = num("usage"), num("code"), num("coded")
        H = g["holding"] = I.fresh_fn("holding", OBJ.sort(), ISETS)
        g["items"], ic = I.fresh("items", z3.ArraySort(OBJ.sort(), z3.BoolSort())), I.fresh("item_codes", z3.ArraySort(OBJ.sort(), z3.RealSort()))
        g["ic"] = ic
        tot = g["total"] = MSUM(U, sz)
        tcard = theory.card_fn(INT)
        n = lambda X: tcard(Select(ct.arr, X))
        some = I.fresh_fn("some_holding", OBJ.sort(), iset)
        I.pc += [FA(X, Select(U, X) == And(Select(ct.dom, X), n(X) > 0), [Select(U, X), n(X)]),
                 FA(X, Select(sz, X) == R(n(X)), [Select(sz, X)]),
                 FA(X, Select(code, X) == If(Select(sz, X) / tot == 0, z3.RealVal(0), 0 - LG(Select(sz, X) / tot)), [Select(code, X)]),
                 FA(X, Select(dv, X) == Select(code, X) * Select(sz, X), [Select(dv, X)]),
                 FA([k, X], Select(H(k), X) == And(Select(U, X), Select(X, k)), [Select(H(k), X)]),
                 FA(k, Implies(Select(g["items"], k), And(Select(U, some(k)), Select(some(k), k))), [Select(g["items"], k)]),
                 FA([k, X], Implies(And(Select(U, X), Select(X, k)), Select(g["items"], k)), [z3.MultiPattern(Select(U, X), Select(X, k))]),
                 FA(k, Select(ic, k) == Select(codes.arr, k) * R(icard(H(k))), [Select(ic, k)])]
        L.used(I, "a sum of numbers of which none is negative is at least each of them")
        I.pc.append(FA(X, Implies(Select(U, X), tot >= Select(sz, X)), [Select(U, X)]))
        L.used(I, "fewer than 2**32 transactions")
        if coded:
            L.used(I, "the items of used itemsets have a code in the table of singletons (proved where the table of singletons is made)")
            I.pc.append(FA(k, Implies(Select(g["items"], k), Select(codes.dom, k)), [Select(g["items"], k)]))
        I.pc += [FA(X, Implies(Select(ct.dom, X), And(n(X) >= 0, n(X) < 2 ** 32)), [n(X)])]
        c = content(ct)
        I.pc += [DS(c) == MSUM(U, dv), MS(c) == ISUM(g["items"], ic) + MSUM(U, code)]

    def fresh_result(self, I, F):
        return TupV([I.fresh_val("d_size", REAL), I.fresh_val("m_size", REAL)])

    def ensures(self, F, res):
        c = content(F.args[1])
        if not (isinstance(res, TupV) and len(res.items) == 2 and all(isinstance(x, Sc) for x in res.items)):
            return [("form", F_)]
        if "used" in F.g and not F.I.typing and not ("isets" in F.g and "counts" in F.g):
            raise Mismatch("the used itemsets and the counts of their items are not listed as expected")
        return [("data", res.items[0].term == DS(c)), ("model", res.items[1].term == MS(c))]


class Evaluate(_Slim):
    """the table with the candidate covers each occurrence exactly once, its sizes are returned, the model is left as it was"""
    target = f"{CLS}.evaluate"

    def make_args(self, I):
        return [self.make_self(I), I.fresh_val("candidate", ISET)]

    def requires(self, F):
        me, c = F.args[0].attrs, F.args[1].arr
        k = bv(OBJ, "k")
        std = me["standard_codetable_"]
        F.I.assume(card(c) >= 0)       # values are finite
        return table(me["codetable_"], std, "known single filled") + [
            ("candidate-filled", EX(k, Select(c, k))),
            ("candidate-known", FA(k, Implies(Select(c, k), Select(std.dom, k)), [Select(c, k)])), ("data", some_data(std))]

    def fresh_result(self, I, F):
        r = TupV([I.fresh_val("data", REAL), I.fresh_val("model", REAL), I.fresh_val("CTc", COV)])
        I.F.g["evaluated"] = clone(r.items[2], {})
        return r

    def ensures(self, F, res):
        me = F.old[0].attrs
        std, ct0 = me["standard_codetable_"], me["codetable_"]
        if not (isinstance(res, TupV) and len(res.items) == 3 and isinstance(res.items[2], MapV)):
            return [("form", F_)]
        d, m, ct = res.items
        X = bv(ISET, "X")
        c = F.old[1].arr
        return table(ct, std) + [
            ("data-size", R(d.term) == DS(content(ct))), ("model-size", R(m.term) == MS(content(ct))),
            ("itemsets", FA(X, Implies(Select(ct.dom, X), Or(X == c, Select(ct0.dom, X))), [Select(ct.dom, X)])),
            ("all-unpruned", Implies(Not(me["pruning"].term), FA(X, Implies(Or(X == c, Select(ct0.dom, X)), Select(ct.dom, X)), [Select(ct0.dom, X)]))),
        ] + ([] if getattr(F, "caller", False) else self.frame(F))


class Update(_Slim):
    """the code table becomes exactly the usages given or evaluated, with their sizes"""
    target = f"{CLS}.update"
    modifies = ((0, "codetable_"), (0, "data_size_"), (0, "model_size_"))

    def fresh_result(self, I, F):
        return NONE

    def loop_spec(self, Lc, ordn, depth):
        """the loop that deletes itemsets"""
        if depth or not isinstance(Lc.itv, (SetV, SeqV)) or Lc.itv.ety != ISET:
            return None
        I = Lc.I
        now = lambda: I.F.args[0].attrs["codetable_"]
        ct0 = clone(now(), {})
        pos = I.last_enum[2] if isinstance(Lc.itv, SetV) else None

        def inv(Lc, i):
            ct, X, j = now(), bv(ISET, "X"), ints(1)
            gone = And(Select(Lc.itv.arr, X), pos(X) < i) if pos is not None else EX(j, And(rng(j, 0, i), Select(Lc.itv.arr, j) == X))
            return [("deleted", FA(X, Select(ct.dom, X) == And(Select(ct0.dom, X), Not(gone)), [Select(ct.dom, X)])),
                    ("values", FA(X, Implies(Select(ct.dom, X), Select(ct.arr, X) == Select(ct0.arr, X)), [Select(ct.arr, X)]))]
        return LoopSpec(inv)

    def setup(self, I, F):
        """an itemset with at most one item is a singleton"""
        X, k = bv(ISET, "X"), bv(OBJ, "k")
        some = z3.Function("some_obj", iset, OBJ.sort())
        l1 = FA(X, Implies(card(X) > 0, sub(sing(some(X)), X)), [card(X)])
        l2 = FA(k, card(sing(k)) == 1, [sing(k)])
        one = FA(X, Implies(And(0 < card(X), card(X) <= 1), X == sing(some(X))), [card(X)])
        keep, I.pc = I.pc, []
        I.prove("lemma.singleton-inside", l1, kind="lemma")
        I.prove("lemma.singleton-size", l2, kind="lemma")
        I.pc = [l1, l2]
        I.prove("lemma.singletons", one, kind="lemma")
        I.pc = keep + [one]


class UpdateUsages(Update):
    variant = "usages given"

    def make_args(self, I):
        return [self.make_self(I), NONE, I.fresh_val("model", REAL), I.fresh_val("data", REAL), I.fresh_val("usages", COV)]

    def requires(self, F):
        me, us = F.args[0].attrs, F.args[4]
        std = me["standard_codetable_"]
        return table(me["codetable_"], std, "known filled") + [("new." + n, f) for n, f in table(us, std, "single")]

    def ensures(self, F, res):
        me, us = F.args[0].attrs, F.old[4]
        return [("table", same_map(me["codetable_"], us)), ("data-size", me["data_size_"].term == F.old[3].term),
                ("model-size", me["model_size_"].term == F.old[2].term)] + ([] if getattr(F, "caller", False) else self.frame(F, ("standard_codetable_",)))


class UpdateCandidate(Update):
    variant = "candidate given"

    def make_args(self, I):
        return [self.make_self(I), I.fresh_val("candidate", ISET), NONE, NONE, NONE]

    def requires(self, F):
        F2 = type("G", (), {})()
        F2.args, F2.I = [F.args[0], F.args[1]], F.I
        return Evaluate().requires(F2)

    def ensures(self, F, res):
        me = F.args[0].attrs
        std, ct = F.old[0].attrs["standard_codetable_"], me["codetable_"]
        ev = F.g.get("evaluated")
        if ev is None:
            return [("evaluated", F_)]
        F.I.prove_without({"evaluate." + n for n in "known filled sound once complete itemsets all-unpruned data-size model-size".split()},
                          "ensures.as-evaluated", same_map(ct, ev))
        F.I.pc += [ct.dom == ev.dom, same_map(ct, ev)]
        return table(ct, std) + [("data-size", me["data_size_"].term == DS(content(ct))), ("model-size", me["model_size_"].term == MS(content(ct)))] \
            + self.frame(F, ("standard_codetable_",))


class Prune(_Slim):
    """still an exact table, of these itemsets, no larger; sizes are its sizes; no older itemset of several items is left unused"""
    target = f"{CLS}._prune"
    modifies = (1,)
    shallow = True

    def make_args(self, I):
        return [self.make_self(I), I.fresh_val("CTc", COV), I.fresh_val("model", REAL), I.fresh_val("data", REAL)]

    def requires(self, F):
        me, ct = F.args[0].attrs, F.args[1]
        std, ct0 = me["standard_codetable_"], me["codetable_"]
        X = bv(ISET, "X")
        return table(ct, std) + [
            ("keeps", FA(X, Implies(Select(ct0.dom, X), Select(ct.dom, X)), [Select(ct0.dom, X)])),
            ("model", F.args[2].term == MS(content(ct))), ("data", F.args[3].term == DS(content(ct))), ("some-data", some_data(std))]

    def fresh_result(self, I, F):
        return TupV([F.args[1], I.fresh_val("data", REAL), I.fresh_val("model", REAL)])

    def setup(self, I, F):
        """values are finite sets"""
        X = bv(ISET, "X")
        c = theory.card_fn(INT)(Select(F.args[1].arr, X))
        I.pc.append(FA(X, c >= 0, [c]))

    def unused_stay(self, F, ct, also):
        """itemsets of several items are used, or were unused new ones (or also)"""
        me, was = F.old[0].attrs, F.old[1]
        X, t = bv(ISET, "X"), ints(1)
        some = z3.Function("some_int", TIDS.sort(), z3.IntSort())
        cdi = theory.card_fn(INT)
        return FA(X, Implies(And(Select(ct.dom, X), card(X) > 1), Or(
            cdi(Select(ct.arr, X)) > 0, also(X), And(Not(Select(me["codetable_"].dom, X)), cdi(Select(was.arr, X)) == 0))),
            [z3.MultiPattern(Select(ct.dom, X), card(X))])

    def ensures(self, F, res):
        me, was = F.old[0].attrs, F.old[1]
        std = me["standard_codetable_"]
        if not (isinstance(res, TupV) and len(res.items) == 3 and isinstance(res.items[0], MapV)):
            return [("form", F_)]
        ct, d, m = res.items
        X = bv(ISET, "X")
        return table(ct, std) + [
            ("data-size", d.term == DS(content(ct))), ("model-size", m.term == MS(content(ct))),
            ("no-larger", d.term + m.term <= DS(content(was)) + MS(content(was))),
            ("itemsets", FA(X, Implies(Select(ct.dom, X), Select(was.dom, X)), [Select(ct.dom, X)])),
            ("none-unused", self.unused_stay(F, ct, lambda X: F_))] + ([] if getattr(F, "caller", False) else self.frame(F))

    def loop_spec(self, Lc, ordn, depth):
        if depth:
            return None
        I = Lc.I
        F = I.F
        me, was = F.old[0].attrs, F.old[1]
        std, old = me["standard_codetable_"], me["codetable_"]
        sets = lambda Lc: [Lc.I.env[k] for k in sorted(Lc.I.env) if isinstance(Lc.I.env[k], SetV) and k in Lc.names]
        Lc.names = [k for k in sorted(I.env) if isinstance(I.env[k], SetV)]
        names = [k for k in I.roots_modified(Lc.node.body)[0]]
        if Lc.itv is not None:
            en = getattr(I, "last_enum", None)

            def first(Lc, i):
                ct, ps = F.args[1], [as_type(v, SetT(ISET)) for v in sets(Lc)]
                X = bv(ISET, "X")
                j = ints(1)
                seen = lambda X: And(Select(old.dom, X), en[2](X) < i)
                cdi = theory.card_fn(INT)
                dead = lambda X: And(seen(X), card(X) > 1, cdi(Select(was.arr, X)) == 0)
                return [("deleted", FA(X, Select(ct.dom, X) == And(Select(was.dom, X), Not(dead(X))), [Select(ct.dom, X)])),
                        ("values", FA(X, Implies(Select(ct.dom, X), Select(ct.arr, X) == Select(was.arr, X)), [Select(ct.arr, X)])),
                        ] + [("candidates", FA(X, Implies(Select(p.arr, X), And(Select(ct.dom, X), card(X) > 1, cdi(Select(was.arr, X)) > 0)), [Select(p.arr, X)]))
                              for p in ps]
            return LoopSpec(first)

        def second(Lc, i):
            ct, ps = F.args[1], [as_type(v, SetT(ISET)) for v in sets(Lc)]
            env = Lc.I.env
            cov = F.g.get("covered")
            if cov is not None and not ct.dom.eq(cov.dom) and I.try_lemma("as-covered", same_map(ct, cov)):
                keep, I.pc = I.pc, [same_map(ct, cov)]
                I.prove("lemma.same-content", content(ct) == content(cov), kind="lemma")
                I.pc = keep + [content(ct) == content(cov), ct.dom == cov.dom]
            d, m = env["data_size"].term, env["model_size"].term
            X = bv(ISET, "X")
            return table(ct, std) + [
                ("data-size", d == DS(content(ct))), ("model-size", m == MS(content(ct))),
                ("no-larger", d + m <= DS(content(was)) + MS(content(was))),
                ("itemsets", FA(X, Implies(Select(ct.dom, X), Select(was.dom, X)), [Select(ct.dom, X)]))] + [
                ("candidates", FA(X, Implies(Select(p.arr, X), And(Select(ct.dom, X), card(X) > 1)), [Select(p.arr, X)])) for p in ps] + [
                ("none-unused", self.unused_stay(F, ct, lambda X: Or(*[Select(p.arr, X) for p in ps])))]
        return LoopSpec(second)


class Log2(Contract):
    """the logarithm of each value, 0 for 0"""
    target = f"{SLIM}::_log2"
    trusted = True

    def fresh_result(self, I, F):
        v = F.args[0]
        if isinstance(v, MapV) and v.vty == REAL:
            return _mapdef(I, v, REAL, lambda x: If(Select(v.arr, x) == 0, z3.RealVal(0), LG(Select(v.arr, x))))
        r = I.fresh_val("logs", SeqT(REAL))
        I.assume(r.n == (v.n if isinstance(v, SeqV) else z3.IntVal(len(v.items))))
        r.kind = "array"
        if isinstance(v, SeqV) and v.ety == REAL:
            j = ints(1)
            I.assume(FA(j, Implies(rng(j, 0, r.n), Select(r.arr, j) == If(Select(v.arr, j) == 0, z3.RealVal(0), LG(Select(v.arr, j)))), [Select(r.arr, j)]))
        return r


class Candidates(_Slim):
    """unions of itemsets of the table that were not seen before; the table is left as it was"""
    target = f"{CLS}.generate_candidates"
    modifies = (1,)

    def make_args(self, I):
        me = self.make_self(I)
        me.attrs["_starting_codes"] = I.fresh_val("codes", MapT(OBJ, REAL))
        return [me, I.fresh_val("stack", SetT(ISET))]

    def requires(self, F):
        me = F.args[0].attrs
        return table(me["codetable_"], me["standard_codetable_"], "known filled")

    def fresh_result(self, I, F):
        return I.fresh_val("candidates", SeqT(TupT(ISET, REAL)))

    def good(self, F, c):
        """what holds of the candidates in the list c"""
        std, seen = F.old[0].attrs["standard_codetable_"], F.old[1].arr
        j, k = ints(1), bv(OBJ, "k")
        X = TupT(ISET, REAL).sort().accessor(0, 0)(Select(c.arr, j))
        return [("filled", FA(j, Implies(rng(j, 0, c.n), EX(k, Select(X, k))), [Select(c.arr, j)])),
                ("known", FA([j, k], Implies(And(rng(j, 0, c.n), Select(X, k)), Select(std.dom, k)), [Select(X, k)])),
                ("new", FA(j, Implies(rng(j, 0, c.n), Not(Select(seen, X))), [Select(c.arr, j)]))]

    def ensures(self, F, res):
        if not isinstance(res, (SeqV, TupV)):
            return [("form", F_)]
        return self.good(F, as_type(res, SeqT(TupT(ISET, REAL)))) + ([] if getattr(F, "caller", False) else self.frame(F))

    def loop_spec(self, Lc, ordn, depth):
        if depth:
            return None
        F = Lc.I.F

        def inv(Lc, i):
            X = bv(ISET, "X")
            some = z3.Function("some_obj", iset, OBJ.sort())
            for v in Lc.I.env.values():
                if isinstance(v, SetV) and v.ety == OBJ and not Lc.I.typing:
                    Lc.I.seed(*[Select(v.arr, some(e)) for e in F.g.get("elements", [])])
            out = [("stack", FA(X, Implies(Select(F.old[1].arr, X), Select(F.args[1].arr, X)), [Select(F.args[1].arr, X)]))]
            for n, v in sorted(Lc.I.env.items()):
                if isinstance(v, SeqV) and n in Lc.lists and (v.ety is None or v.ety == TupT(ISET, REAL)):
                    out += [(f"{n}.{a}", f) for a, f in self.good(F, as_type(v, SeqT(TupT(ISET, REAL))))]
            return out
        Lc.lists = {r for r, p in Lc.I.roots_modified(Lc.node.body)[1]}

        def walk(v):
            if isinstance(v, SetV) and v.ety == OBJ:
                Lc.I.seed(card(v.arr))
                F.g.setdefault("elements", []).append(v.arr)
            for x in getattr(v, "items", []) if isinstance(v, TupV) else []:
                walk(x)
        return LoopSpec(inv, at_body=lambda Lc, i: walk(Lc.get(i)))


def _mapdef(I, m, vty, f):
    """the series of the same items with value f(item)"""
    arr, k = I.fresh("series", z3.ArraySort(m.kty.sort(), vty.sort())), bv(m.kty, "k")
    I.pc.append(FA(k, Select(arr, k) == f(k), [Select(arr, k)]))
    I.F.g.setdefault("rows", []).append(I.pc[-1])
    return MapV(m.kty, vty, m.dom, arr)


def _series(I, a, k, line):
    """pandas.Series: of a dictionary, or of values with their items"""
    L.used(I, "pandas.Series: one row per item, with its value (in some order)")
    if len(a) == 1 and not k and isinstance(a[0], MapV) and a[0].kty is not None:
        return MapV(a[0].kty, a[0].vty, a[0].dom, a[0].arr)
    keys = k.get("index", a[1] if len(a) == 2 else None)
    if not a or isinstance(a[0], MapV) or keys is None or not set(k) <= {"index", "dtype"}:
        raise Unsupported("Series of that")
    vals, keys = settled(I, a[0], TIDS), settled(I, keys, OBJ)
    i, j, x = *ints(2), bv(OBJ, "x")
    I.safe("as-many-items-as-values", vals.n == keys.n, line, "ValueError")
    I.prove("no-item-twice", FA([i, j], Implies(And(0 <= i, i < j, j < keys.n), Select(keys.arr, i) != Select(keys.arr, j))), line)
    r = I.fresh_val("series", VERT)
    I.pc += [FA(x, Select(r.dom, x) == EX(j, And(rng(j, 0, keys.n), Select(keys.arr, j) == x)), [Select(r.dom, x)]),
             FA(j, Implies(rng(j, 0, keys.n), And(Select(r.dom, Select(keys.arr, j)), Select(r.arr, Select(keys.arr, j)) == Select(vals.arr, j))),
                [Select(keys.arr, j)])]
    return r


def settled(I, v, ety):
    v = getattr(v, "seq", v) if isinstance(v, GenV) else v
    if isinstance(v, TupV):
        v = as_type(v, SeqT(ety))
    if isinstance(v, SeqV) and v.ety is None:
        v = as_type(v, SeqT(ety))
    if not (isinstance(v, SeqV) and v.ety == ety):
        raise Unsupported("rows of a series")
    return v


def _concat(I, a, k, line):
    v = a[0] if len(a) == 1 and not k else None
    if isinstance(v, SeqV) and v.ety == VERT and z3.is_int_value(v.n):
        v = TupV([from_term(VERT, z3.simplify(Select(v.arr, i))) for i in range(v.n.as_long())])
    if not (isinstance(v, TupV) and v.items and all(isinstance(x, MapV) and x.ty == VERT for x in v.items)):
        raise Unsupported("concat")
    L.used(I, "pandas.concat: the rows of each series")
    out = v.items[0]
    for m in v.items[1:]:
        x, r = bv(OBJ, "x"), I.fresh_val("joined", VERT)
        I.prove("no-item-twice", FA(x, Not(And(Select(out.dom, x), Select(m.dom, x)))), line)
        I.pc += [FA(x, Select(r.dom, x) == Or(Select(out.dom, x), Select(m.dom, x)), [Select(r.dom, x)]),
                 FA(x, Select(r.arr, x) == If(Select(out.dom, x), Select(out.arr, x), Select(m.arr, x)), [Select(r.arr, x)])]
        out = r
    return out


def _smap(I, s, a, k, line):
    if len(a) == 1 and not k and isinstance(a[0], FnV) and a[0].kind == "global" and a[0].name == "len" and s.vty == TIDS:
        tcard = theory.card_fn(INT)
        L.used(I, "pandas.Series.map: the function of each value")
        L.used(I, "fewer than 2**32 transactions")
        x = bv(OBJ, "x")
        n = tcard(Select(s.arr, x))
        I.pc.append(FA(x, Implies(Select(s.dom, x), And(n >= 0, n < 2 ** 32)), [n]))
        return _mapdef(I, s, INT, lambda x: tcard(Select(s.arr, x)))
    raise Unsupported("Series.map")


def _astype(I, s, a, k, line):
    n = getattr(a[0], "name", "") if len(a) == 1 and isinstance(a[0], FnV) else ""
    bits = {"numpy.uint32": 32, "numpy.uint64": 64, "numpy.int64": 63, "numpy.uint16": 16, "numpy.uint8": 8, "int": 63}.get(n)
    if bits is None or s.vty != INT:
        raise Unsupported("astype")
    x = bv(OBJ, "x")
    I.prove("numbers-fit", FA(x, Implies(Select(s.dom, x), And(Select(s.arr, x) >= 0, Select(s.arr, x) < 2 ** bits))), line)
    return s


def _nlargest(I, s, a, k, line):
    """all rows are kept when as many are asked for"""
    if not (len(a) == 1 and not k and isinstance(a[0], Sc)):
        raise Unsupported("nlargest")
    L.used(I, "pandas.Series.nlargest(n): the n largest rows, all when there are no more")
    I.prove("all-items-kept", a[0].term >= I.enum_map(s)[0], line)
    return MapV(s.kty, s.vty, s.dom, s.arr)


def _sorted_rows(I, s, a, k, line):
    if set(k) <= {"ascending", "kind"} and not a:
        return MapV(s.kty, s.vty, s.dom, s.arr)
    raise Unsupported("sort_values")


def _ssum(I, s, a, k, line):
    if a or k or s.vty not in (INT, REAL):
        raise Unsupported("sum")
    L.used(I, "the sum over a finite set does not depend on the order of its elements")
    arr = s.arr if s.vty == REAL else _mapdef(I, s, REAL, lambda x: R(Select(s.arr, x))).arr
    t = ISUM(s.dom, arr)
    x = bv(OBJ, "x")
    I.F.g.setdefault("sums", []).append((s.dom, arr, t))
    if I.try_lemma("sum-of-no-negative", FA(x, Implies(Select(s.dom, x), Select(arr, x) >= 0))):
        L.used(I, "a sum of numbers of which none is negative is at least each of them")
        I.pc.append(FA(x, Implies(Select(s.dom, x), t >= Select(arr, x)), [Select(arr, x)]))
        I.pc.append(FA(x, Implies(Select(s.dom, x), t >= Select(arr, x)), [Select(s.dom, x)]))
    return Sc(REAL, t)


def _row_ops(I, op, a, b, line):
    import ast
    if not any(isinstance(x, MapV) and x.kty == OBJ and x.vty in (INT, REAL) for x in (a, b)):
        return None
    if op == "neg":
        return _mapdef(I, a, a.vty, lambda x: 0 - Select(a.arr, x))
    f = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y, ast.Div: lambda x, y: x / y}.get(type(op))
    if f is None:
        return None
    at = []
    for v in (a, b):
        if isinstance(v, MapV) and v.vty in (INT, REAL):
            at.append(lambda x, v=v: R(Select(v.arr, x)) if v.vty == INT else Select(v.arr, x))
        elif isinstance(v, Sc) and v.ty in (INT, REAL):
            at.append(lambda x, v=v: R(v.term) if v.ty == INT else v.term)
        else:
            return None
    L.used(I, "pandas: arithmetic of series goes row by row")
    x = bv(OBJ, "x")
    m = a if isinstance(a, MapV) else b
    if isinstance(a, MapV) and isinstance(b, MapV):
        I.prove("same-items", FA(x, Select(a.dom, x) == Select(b.dom, x)), line)
    if isinstance(op, ast.Div):
        I.prove("divisor-not-zero", FA(x, Implies(Select(m.dom, x), at[1](x) != 0)), line)
    return _mapdef(I, m, REAL, lambda x: f(at[0](x), at[1](x)))


def _index(I, base, attr, line):
    if not (isinstance(base, MapV) and base.kty == OBJ and attr in ("index", "values")):
        return None
    n, get, _ = I.enum_map(base)
    if attr == "values":
        return None
    r = SeqV(OBJ, n, base.order[1])
    r.items_from = base
    return r


def _rows(I, base, key, line):
    m = getattr(key, "items_from", None)
    if not (isinstance(base, MapV) and base.kty == OBJ and m is not None and m.order is not None and m.order[1].eq(key.arr)):
        return None
    L.used(I, "pandas: a series indexed by items has the rows of these items")
    x = bv(OBJ, "x")
    I.safe("KeyError", FA(x, Implies(Select(m.dom, x), Select(base.dom, x))), line, "KeyError")
    return MapV(base.kty, base.vty, m.dom, base.arr)


def _sorted_dict(I, a, k, line):
    """SortedDict(order, rows): the rows, enumerated by the order"""
    if len(a) == 2 and isinstance(a[0], FnV):
        a = a[1:]
    r = I.world.b_SortedDict(I, a, k, line)
    rows, m = getattr(a[0], "seq", a[0]), I.F.args[0].attrs.get("standard_codetable_")
    if isinstance(rows, SeqV) and rows.ety == TupT(ISET, TIDS) and isinstance(m, MapV) and m.order is not None and m.order[0].eq(rows.n):
        j, e, s = ints(1), m.order[1], rows.ety.sort()
        row = Select(rows.arr, j)
        X = s.accessor(0, 0)(row)
        I.try_lemma("rows", FA(j, Implies(rng(j, 0, rows.n), And(Select(r.dom, X), X == sing(Select(e, j)), s.accessor(0, 1)(row) == Select(m.arr, Select(e, j))))),
                    FA(j, Implies(rng(j, 0, rows.n), And(Select(r.dom, X), X == sing(Select(e, j)), s.accessor(0, 1)(row) == Select(m.arr, Select(e, j)))), [Select(e, j)]))
    return r


class Prefit(_Slim):
    """the table of singletons of data in which some item occurs, with its sizes"""
    target = f"{CLS}.prefit"
    variant = ""
    with_items = False
    modifies = ((0, "codetable_"), (0, "standard_codetable_"), (0, "data_size_"), (0, "model_size_"), (0, "_starting_codes"))
    world_extra = {"pandas.Series": _series, "pandas.concat": _concat, "sortedcontainers.SortedDict": _sorted_dict, "SortedDict": _sorted_dict}
    world_methods = {**_Slim.world_methods, ("MapV", "map"): _smap, ("MapV", "astype"): _astype, ("MapV", "nlargest"): _nlargest,
                     ("MapV", "sum"): _ssum, ("MapV", "sort_values"): _sorted_rows,
                     ("FnV", "cache_clear"): lambda I, s, a, k, line: NONE}
    attr_hooks, getitem_hooks, binop_hooks = [_index], [_rows], [_row_ops]

    def make_args(self, I):
        me = self.make_self(I)
        me.attrs["_starting_codes"] = I.fresh_val("codes", MapT(OBJ, REAL))
        me.attrs["items"] = I.fresh_val("items", SeqT(OBJ)) if self.with_items else NONE
        return [me, I.fresh_val("D", SeqT(SeqT(OBJ))), NONE]

    def requires(self, F):
        D = F.args[1]
        if not (isinstance(D, SeqV) and D.ety == SeqT(OBJ)):
            return [("transactions", F_)]
        h = F.g["holds"] = Holds(F.I, D)
        t, j = ints(2)
        out = [("some-item", EX([t, j], And(rng(t, 0, D.n), rng(j, 0, h.len(t)), h.f(t, h.at(t, j)))))]
        its = F.args[0].attrs.get("items")
        if isinstance(its, SeqV):
            i, j = ints(2)
            out.append(("items-once", FA([i, j], Implies(And(0 <= i, i < j, j < its.n), Select(its.arr, i) != Select(its.arr, j)))))
        return out

    def setup(self, I, F):
        k, keep = bv(OBJ, "k"), I.pc
        one = FA(k, card(sing(k)) == 1, [sing(k)])
        I.pc = []
        I.prove("lemma.singleton-size", one, kind="lemma")
        I.pc = keep + [one]

    def fresh_result(self, I, F):
        return F.args[0]

    def ensures(self, F, res):
        I, me = F.I, F.args[0].attrs
        ct, std = me["codetable_"], me["standard_codetable_"]
        F.g["start"] = content(ct)
        F.I.F.g["start"] = content(ct)
        out = table(ct, std)
        h, k, t, X = F.g["holds"], bv(OBJ, "k"), ints(1), bv(ISET, "X")
        S = lambda k, t: Select(Select(std.arr, k), t)
        its = F.old[0].attrs.get("items")
        listed = lambda k: EX(t, And(rng(t, 0, its.n), Select(its.arr, t) == k)) if isinstance(its, SeqV) else F_ if isinstance(its, NoneV) else T
        data = [("items", FA(k, Implies(Select(std.dom, k), Or(EX(t, h.f(t, k)), listed(k))), [Select(std.dom, k)])),
                ("items'", FA([k, t], Implies(h.f(t, k), Select(std.dom, k)), [h.f(t, k)])),
                ("tids", FA([k, t], Implies(Select(std.dom, k), S(k, t) == h.f(t, k)), [S(k, t)])),
                ("only-singletons", FA(X, Implies(Select(ct.dom, X), EX(k, X == sing(k))), [Select(ct.dom, X)]))]
        if isinstance(its, SeqV):
            data.append(("listed", FA(t, Implies(rng(t, 0, its.n), Select(std.dom, Select(its.arr, t))))))
        if not getattr(F, "caller", False) and not I.typing:
            for n, f in data + out:
                I.prove("table." + n, f)
            self.define(I, F, ct, std, me["_starting_codes"])
            return [("self", z3.BoolVal(res is F.args[0])), ("some-data", some_data(std)), ("data-size", R(me["data_size_"].term) == DS(content(ct))),
                    ("model-size", R(me["model_size_"].term) == MS(content(ct)))]
        return data + out + [("some-data", some_data(std)), ("data-size", me["data_size_"].term == DS(content(ct))),
                             ("model-size", me["model_size_"].term == MS(content(ct)))]

    def define(self, I, F, ct, std, codes):
        """the sizes of this table, as for any other (see Sizes)"""
        g = F.g
        Sizes.sizes(I, g, ct, codes, False)
        U, sz, code, dv, H, items = (g[x] for x in "used sz code dv holding items".split())
        k, X, t = bv(OBJ, "k"), bv(ISET, "X"), ints(1)
        tcard = theory.card_fn(INT)
        same = Implies(Select(std.dom, k), Select(ct.arr, sing(k)) == Select(std.arr, k))
        if not I.try_lemma("size.rows", FA(k, same), FA(k, same, [sing(k), Select(std.dom, k)])):
            return
        I.try_lemma("size.coded", FA(k, Implies(Select(codes.dom, k), And(Select(std.dom, k), tcard(Select(std.arr, k)) > 0))),
                    FA(k, Implies(Select(codes.dom, k), And(Select(std.dom, k), tcard(Select(std.arr, k)) > 0)), [Select(codes.dom, k)]))
        I.try_lemma("size.not-coded", FA(k, Implies(And(Select(std.dom, k), Not(Select(codes.dom, k))), tcard(Select(std.arr, k)) <= 0)),
                    FA(k, Implies(And(Select(std.dom, k), Not(Select(codes.dom, k))), tcard(Select(std.arr, k)) <= 0), [Select(std.arr, k)]))
        used = FA(k, Select(U, sing(k)) == Select(codes.dom, k))
        I.prove("size.used-singletons", used)
        I.pc.append(FA(k, Select(U, sing(k)) == Select(codes.dom, k), [sing(k), Select(codes.dom, k)]))
        I.prove("size.items", FA(k, Select(items, k) == Select(codes.dom, k)))
        I.pc.append(FA(k, Select(items, k) == Select(codes.dom, k), [Select(items, k), Select(codes.dom, k)]))
        one = z3.Store(z3.K(iset, F_), sing(k), T)
        in_ = Implies(Select(codes.dom, k), Select(H(k), X) == (X == sing(k)))
        I.prove("size.held", FA([k, X], in_))
        keep, I.pc = I.pc, [FA([k, X], in_, [Select(H(k), X)])]
        I.prove("size.held-once", FA(k, Implies(Select(codes.dom, k), H(k) == one)))
        I.pc = keep
        I.pc.append(FA(k, Implies(Select(codes.dom, k), H(k) == one), [H(k)]))
        I.prove("size.held-by-one", FA(k, Implies(Select(codes.dom, k), icard(H(k)) == 1)))
        I.pc.append(FA(k, Implies(Select(codes.dom, k), icard(H(k)) == 1), [H(k)]))
        L.used(I, "a sum over singletons {x} is the sum over their elements x")
        left, known = list(g.get("sums", ())), []
        if not left:
            raise Mismatch("no sums over the items")
        for nm in "sz", "code", "dv":
            arr = I.fresh("of_item", z3.ArraySort(OBJ.sort(), z3.RealSort()))
            this = FA(k, Select(arr, k) == Select(g[nm], sing(k)), [Select(arr, k)])
            I.pc += [this, MSUM(U, g[nm]) == ISUM(items, arr)]
            for d, a, tot in left:
                dom, val = FA(k, Select(d, k) == Select(items, k)), FA(k, Implies(Select(items, k), Select(a, k) == Select(arr, k)))
                if nm == "dv":
                    if not I.try_lemma("sum-of-dv.items", dom):
                        continue
                    keep, I.pc = I.pc, g["rows"] + known + [this, FA(X, Select(dv, X) == Select(code, X) * Select(sz, X), [Select(dv, X)])]
                    ok = I.try_lemma("sum-of-dv.values", val)
                    I.pc = keep + [val, dom] * ok
                    if not ok:
                        continue
                if I.try_lemma("sum-of-" + nm, And(dom, val), tot == MSUM(U, g[nm])):
                    left = [x for x in left if x[2] is not tot]
                    point = Implies(Select(items, k), Select(g[nm], sing(k)) == Select(a, k))
                    I.pc.append(FA(k, point, [Select(a, k), Select(arr, k)]))
                    known.append(FA(k, point, [Select(items, k)]))
                    if nm == "sz":          # the total has one name from here on
                        I.pc = [z3.substitute(f, (tot, MSUM(U, sz))) for f in I.pc] + [tot == MSUM(U, sz)]
                    break
            if nm == "code":
                held = FA(k, Implies(Select(items, k), icard(H(k)) == 1), [Select(items, k)])
                ics = FA(k, Select(g["ic"], k) == Select(codes.arr, k) * R(icard(H(k))), [Select(g["ic"], k)])
                val = FA(k, Implies(Select(items, k), Select(g["ic"], k) == Select(arr, k)))
                if I.try_lemma("held", held):
                    keep, I.pc = I.pc, known + [this, held, ics]
                    ok = I.try_lemma("sum-of-items.values", val)
                    I.pc = keep + [val] * ok
                    I.try_lemma("sum-of-items", val, ISUM(items, g["ic"]) == MSUM(U, code))


class PrefitItems(Prefit):
    """the same, with items that have a row even when no transaction holds them"""
    variant, with_items = "items", True


def _validated(I, s, a, k, line):
    L.used(I, "sklearn BaseEstimator._validate_data: sets attributes of its own only")
    return NONE


class Fit(_Slim):
    """the table found covers each occurrence exactly once, its sizes are those kept, and their sum is at most that of the singletons"""
    target = f"{CLS}.fit"
    modifies = ((0, "codetable_"), (0, "standard_codetable_"), (0, "data_size_"), (0, "model_size_"), (0, "_starting_codes"),
                (0, "is_fitted_"), (0, "n_features_in_"), (0, "classes_"))
    world_methods = {**_Slim.world_methods, ("RecV", "_validate_data"): _validated}

    def make_self(self, I):
        me = super().make_self(I)
        me.attrs["_starting_codes"] = I.fresh_val("codes", MapT(OBJ, REAL))
        return me

    def make_args(self, I):
        X = I.fresh_val("X", SeqT(SeqT(OBJ)))
        I.assume(X.n >= 1)
        return [self.make_self(I), X, NONE]

    def facts(self, F):
        me = F.args[0].attrs
        ct, std, c0 = me["codetable_"], me["standard_codetable_"], F.g.get("start")
        if c0 is None:
            return [("prefit", F_)]
        d, m = me["data_size_"].term, me["model_size_"].term
        return table(ct, std) + [("data-size", d == DS(content(ct))), ("model-size", m == MS(content(ct))),
                                 ("no-larger", d + m <= DS(c0) + MS(c0)), ("some-data", some_data(std))]

    def requires(self, F):
        D = F.args[1]
        h, t, j = Holds(F.I, D), *ints(2)
        F.g["holds"] = h
        return [("some-item", EX([t, j], And(rng(t, 0, D.n), rng(j, 0, h.len(t)), h.f(t, h.at(t, j)))))]

    def ensures(self, F, res):
        std, h, k, t = F.args[0].attrs["standard_codetable_"], F.g["holds"], bv(OBJ, "k"), ints(1)
        data = [("all-items", FA([k, t], Implies(h.f(t, k), Select(std.dom, k)), [h.f(t, k)])),
                ("occurrences", FA([k, t], Implies(Select(std.dom, k), Select(Select(std.arr, k), t) == h.f(t, k)), [Select(Select(std.arr, k), t)]))]
        return [("self", z3.BoolVal(res is F.args[0]))] + self.facts(F) + data

    def loop_spec(self, Lc, ordn, depth):
        F = Lc.I.F
        std = F.args[0].attrs["standard_codetable_"]
        dom, arr = std.dom, std.arr

        def inv(Lc, i):
            now = F.args[0].attrs["standard_codetable_"]
            return self.facts(F) + [("data", And(now.dom == dom, now.arr == arr))]
        return LoopSpec(inv) if depth == 0 or Lc.itv is not None else None
