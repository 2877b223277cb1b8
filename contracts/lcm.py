"""closed itemsets (skmine/itemsets/lcm.py)"""
from pyvc.contract import *
from pyvc.spec import *
from pyvc import lib as L, theory
from pyvc.vals import SetV, SeqV, TupV, MapV, RecV, GenV

MOD = "skmine/itemsets/lcm.py"
IDX = SetT(INT)
sub, card = theory.subset_fn(INT), theory.card_fn(INT)


class Db:
    """the vertical database seen by one call: tids of an index, and the notions defined over it"""

    def __init__(self, I, me):
        m = me.attrs["item_to_tids_"]
        self.I, self.N, self.arr = I, me.attrs["ord_item_freq_"].n, m.arr
        self.ord = me.attrs["ord_item_freq_"].arr
        self.ms = me.attrs["min_supp_"].term
        s = IDX.sort()
        self.Tf = z3.Function("tids_of", s, s)
        self.closed = z3.Function("closed", s, z3.BoolSort())
        self.wT = z3.Function("missing", s, z3.IntSort(), z3.IntSort())
        self.wC = z3.Function("extends", s, z3.IntSort())

    def dom(self, x):
        return rng(x, 0, self.N)

    def defs(self):
        """definitions (conservative): transactions holding a set, closed sets"""
        C = bv(IDX, "C")
        t, x = ints(2)
        A, Tf, wT, wC = self.arr, self.Tf, self.wT, self.wC
        return [
            FA([C, t, x], Implies(And(Select(Tf(C), t), Select(C, x)), Select(Select(A, x), t)),
               [z3.MultiPattern(Select(Tf(C), t), Select(C, x))]),
            FA([C, t], Or(Select(Tf(C), t), And(Select(C, wT(C, t)), Not(Select(Select(A, wT(C, t)), t)))),
               [Select(Tf(C), t)])], [
            FA([C, x], Implies(And(self.closed(C), Select(C, x)), self.dom(x)), [z3.MultiPattern(self.closed(C), Select(C, x))]),
            FA([C, x], Implies(And(self.closed(C), self.dom(x), sub(Tf(C), Select(A, x))), Select(C, x)),
               [z3.MultiPattern(self.closed(C), Select(C, x)), z3.MultiPattern(self.closed(C), Select(A, x))]),
            FA([C], Or(self.closed(C), And(Select(C, wC(C)), Not(self.dom(wC(C)))),
                       And(self.dom(wC(C)), sub(Tf(C), Select(A, wC(C))), Not(Select(C, wC(C))))), [self.closed(C)])], [
            FA([x], Implies(self.dom(x), card(Select(A, x)) >= 0), [Select(A, x)]),
        ]

    def out_defs(self):
        """out(p, l, C): C is a closed frequent set holding p and l, everything it has beyond p being at most l"""
        s = IDX.sort()
        o = self.out = z3.Function("out", s, z3.IntSort(), s, z3.BoolSort())
        w = z3.Function("beyond", s, z3.IntSort(), s, z3.IntSort())
        mx = self.mx = z3.Function("maxdiff", s, s, z3.IntSort())
        p, C = bv(IDX, "p"), bv(IDX, "C")
        l, x = ints(2)
        y = w(p, l, C)
        base = And(self.closed(C), R(card(self.Tf(C))) >= self.ms, sub(p, C), Select(C, l), Not(Select(p, l)))
        return [FA([p, l, C], Implies(o(p, l, C), base), [o(p, l, C)]),
                FA([p, l, C, x], Implies(And(o(p, l, C), Select(C, x)), Or(Select(p, x), x <= l)),
                   [z3.MultiPattern(o(p, l, C), Select(C, x))]),
                FA([p, l, C], Or(o(p, l, C), Not(base), And(Select(C, y), Not(Select(p, y)), y > l)), [o(p, l, C)]),
                ], [
                # the largest element of C - p, a non-empty set bounded by N
                FA([C, p, x], Implies(And(self.closed(C), Select(C, x), Not(Select(p, x))), And(
                    Select(C, mx(C, p)), Not(Select(p, mx(C, p))), x <= mx(C, p))),
                   [z3.MultiPattern(mx(C, p), Select(C, x))])]


class _Inner(Contract):
    modifies = ()
    is_generator = True

    def make_self(self, I):
        N = I.fresh("N", z3.IntSort())
        m = I.fresh_val("item_to_tids", MapT(INT, IDX))
        x = ints(1)
        ident = I.fresh("keys", z3.ArraySort(z3.IntSort(), z3.IntSort()))
        I.pc += [N >= 0, FA(x, Select(m.dom, x) == rng(x, 0, N), [Select(m.dom, x)]), FA(x, Select(ident, x) == x, [Select(ident, x), Select(m.arr, x), Select(m.dom, x)])]
        m.order, m.sorted_keys = (N, ident), True
        o = SeqV(OBJ, N, I.fresh("ord", z3.ArraySort(z3.IntSort(), OBJ.sort())))
        pos = I.fresh_fn("index_of", OBJ.sort(), z3.IntSort())
        I.pc.append(FA(x, Implies(rng(x, 0, N), pos(Select(o.arr, x)) == x), [Select(o.arr, x)]))   # items are distinct
        I.F.g["pos"] = pos
        return RecV(f"{MOD}::{self.cls}", {
            "item_to_tids_": m, "ord_item_freq_": o, "min_supp_": I.fresh_val("min_supp", REAL),
            "lexicographic_order_": I.fresh_val("lexi", BOOL), "return_tids_": I.fresh_val("ret_tids", BOOL),
            "max_length_": I.fresh_val("max_length", INT)})

    def make_args(self, I):
        return [self.make_self(I), TupV([I.fresh_val("p", IDX), I.fresh_val("tids", IDX)]), I.fresh_val("limit", INT)]

    def requires(self, F):
        I, me = F.I, F.args[0]
        db = I.F.g.setdefault("db", Db(I, me))
        p, t = [L.as_set(I, v) for v in F.args[1].items]
        if p.ety is None:
            settle(p, IDX)
        l = F.args[2].term
        x = ints(1)
        if getattr(F, "caller", False):
            q = I.F.g["q"]
            self.same(I, "prefix-is-closure", p.arr, q)
            u = I.F.g["U"](l)
            self.same(I, "tids-of-extension", t.arr, u)
            return [("limit", And(db.dom(l), Not(Select(q, l)))), ("prefix", FA(x, Implies(Select(p.arr, x), db.dom(x)), [Select(p.arr, x)])),
                    ("tids", t.arr == db.Tf(z3.Store(q, l, T))), ("frequent", R(card(u)) >= db.ms)]
        return [("limit", And(db.dom(l), Not(Select(p.arr, l)))),
                ("prefix", FA(x, Implies(Select(p.arr, x), db.dom(x)), [Select(p.arr, x)])),
                ("tids", t.arr == db.Tf(z3.Store(p.arr, l, T))),
                ("frequent", R(card(t.arr)) >= db.ms)]

    def same(self, I, name, A, B):
        """prove two sets equal element by element; from then on they are the same"""
        x = ints(1)
        I.prove("lemma." + name, FA(x, Select(A, x) == Select(B, x)), kind="lemma")
        I.pc.append(A == B)

    def hint(self, I, name, f):
        I.prove("lemma." + name, f, kind="lemma")
        I.pc.append(f)

    def init_yield(self, I, F):
        I.cnt += 1
        F.g["Y"] = z3.Function(f"Y!{I.cnt}", IDX.sort(), z3.IntSort())
        C = bv(IDX, "C")
        I.pc.append(FA(C, F.g["Y"](C) == 0, [F.g["Y"](C)]))

    def setup(self, I, F):
        db = F.g["db"]
        req = list(I.pc)
        dT, dC, fin = db.defs()
        dO, dM = db.out_defs()
        p, tids, l = F.old[1].items[0].arr, F.old[1].items[1].arr, F.old[2].term
        C = bv(IDX, "C")
        x, m, t = ints(3)
        q = F.g["q"] = I.fresh("closure", IDX.sort())
        A, Tf, o, mx = db.arr, db.Tf, db.out, db.mx
        pl = z3.Store(p, l, T)
        N0, ms = db.N >= 0, db.ms
        # the closure of p + l
        dq = [FA(x, Select(q, x) == And(db.dom(x), sub(tids, Select(A, x))), [Select(q, x)])]
        U = F.g["U"] = z3.Function("with", z3.IntSort(), IDX.sort())
        dU = [FA([m, t], Select(U(m), t) == And(Select(tids, t), Select(Select(A, m), t)), [Select(U(m), t)])]
        ppc = F.g["ppc"] = I.fresh("ppc", z3.BoolSort())
        w = I.fresh("above", z3.IntSort())
        dP = [FA(x, Implies(And(ppc, Select(q, x)), Or(Select(p, x), x <= l)), [Select(q, x)]),
              Or(ppc, And(Select(q, w), Not(Select(p, w)), w > l))]
        pre = [f for _, f in self.requires(F)]

        def lemma(name, f, *using):
            keep, I.pc = I.pc, [g for u in using for g in (u if isinstance(u, list) else [u])]
            I.prove("lemma." + name, f, kind="lemma")
            I.pc = keep
            return f
        grows = lemma("grows", And(sub(p, q), Select(q, l)), pre, dT, dq)
        t1 = lemma("same-tids-1", sub(tids, Tf(q)), pre, dT, dq)
        t2 = lemma("same-tids-2", sub(Tf(q), Tf(pl)), grows, dT)
        eq = lemma("same-tids", Tf(q) == tids, pre, t1, t2)
        cl = lemma("closed", db.closed(q), eq, dC, dq)
        ot = lemma("out-tids", FA(C, Implies(o(p, l, C), sub(Tf(C), Tf(pl))), [o(p, l, C)]), dT, dO)
        least = lemma("least", FA(C, Implies(o(p, l, C), sub(q, C)), [o(p, l, C)]), pre, ot, dq, dC, dO)
        ext = lemma("extension", FA(m, Tf(z3.Store(q, m, T)) == U(m), [Tf(z3.Store(q, m, T))]), eq, dT, dU)
        os = lemma("out-support", FA([m, C], Implies(o(q, m, C), sub(Tf(C), U(m))), [o(q, m, C)]), eq, dT, dO, dU)
        us = lemma("with-some", FA(m, sub(U(m), Select(A, m)), [U(m)]), dU)
        of = lemma("out-frequent", FA([m, C], Implies(And(db.dom(m), o(q, m, C)), R(card(U(m))) >= ms), [o(q, m, C)]),
                   os, us, fin, dO)
        n1 = lemma("child", FA(C, Implies(And(o(p, l, C), C != q), And(
            o(q, mx(C, q), C), db.dom(mx(C, q)), mx(C, q) < l, Not(Select(q, mx(C, q))))), [o(p, l, C)]), pre, grows, least, dO, dM, dC)
        n2 = lemma("parent", FA([m, C], Implies(And(ppc, m < l, o(q, m, C)), And(
            o(p, l, C), C != q, mx(C, q) == m)), [o(q, m, C)]), pre, grows, dO, dM, dC, dP)
        n3 = lemma("self", o(p, l, q) == ppc, pre, grows, eq, cl, dO, dP)
        n4 = lemma("none", FA(C, Implies(o(p, l, C), ppc), [o(p, l, C)]), least, dO, dP)
        I.pc = req + dq + dU + dP + [grows, eq, ext, of, n1, n2, n3, n4]

    def before_loop(self, I, F, cand):
        db, q = F.g["db"], F.g["q"]
        S = getattr(cand, "set_arr", None)
        I.same_sets("closure-computed", q, INT, [v.arr for v in F.old[1].items])
        if S is not None and not I.typing:
            x, j = ints(2)
            l = F.old[2].term
            self.hint(I, "all-smaller-tried", FA(x, Implies(And(db.dom(x), Not(Select(q, x)), x < l, theory.mark(Select(S, x))), EX(
                j, And(rng(j, 0, cand.n), Select(cand.arr, j) == x))), [Select(q, x)]))

    def fresh_Y(self, I):
        I.cnt += 1
        return z3.Function(f"Y!{I.cnt}", IDX.sort(), z3.IntSort())

    def bump(self, I, F, f):
        """the ghost count of yields: Y'(C) = Y(C) + f(C)"""
        Y = F.g["Y"]
        Y2 = self.fresh_Y(I)
        C = bv(IDX, "C")
        I.pc.append(FA(C, Y2(C) == Y(C) + f(C), [Y2(C)]))
        F.g["Y"] = Y2

    def on_yield(self, I, F, v, line):
        db, me = F.g["db"], F.old[0].attrs
        if not isinstance(v, TupV) or len(v.items) not in (2, 3):
            I.prove("yield.form", F_, line)
            return
        withtids = me["return_tids_"].term
        I.prove("yield.form", withtids if len(v.items) == 3 else Not(withtids), line)
        its = v.items[0]
        E = L.as_set(I, its)
        x = ints(1)
        # indices of the items of the pattern
        C = I.fresh("yielded", IDX.sort())
        k = bv(OBJ, "k")
        I.pc.append(FA(x, Select(C, x) == And(db.dom(x), Select(E.arr, Select(db.ord, x))), [Select(C, x)]))
        pos = F.g["pos"]
        self.same(I, "yields-closure", C, F.g["q"])
        I.prove("yield.items-known", FA(k, Implies(Select(E.arr, k), And(db.dom(pos(k)), Select(db.ord, pos(k)) == k)), [Select(E.arr, k)]), line)
        q = F.g["q"]
        I.prove("yield.support", v.items[1].term == card(db.Tf(q)), line)
        if len(v.items) == 3:
            I.prove("yield.tids", v.items[2].arr == db.Tf(q), line)
        if isinstance(its, SeqV):
            a, b = ints(2)
            I.prove("yield.no-repetition", FA([a, b], Implies(And(0 <= a, a < b, b < its.n), Select(its.arr, a) != Select(its.arr, b))), line)
            lt = z3.Function("obj_lt", OBJ.sort(), OBJ.sort(), z3.BoolSort())
            I.prove("yield.in-order", Implies(me["lexicographic_order_"].term, FA([a, b], Implies(
                And(0 <= a, a < b, b < its.n), Not(lt(Select(its.arr, b), Select(its.arr, a)))))), line)
        self.bump(I, F, lambda D: If(D == F.g["q"], 1, 0))

    def on_yield_from(self, I, F, v, line):
        p, l = v.p, v.l
        db = F.g["db"]
        self.bump(I, F, lambda C: If(self.visible(F, C, db.out(p, l, C)), 1, 0))

    def visible(self, F, C, f):
        ml = F.old[0].attrs["max_length_"].term
        return And(f, Or(card(C) <= ml, ml == -1))

    def fresh_result(self, I, F):
        g = GenV(z3.IntVal(0), None, z3.IntVal(0))
        g.p, g.l = F.old[1].items[0].arr, F.old[2].term
        return g

    def ensures(self, F, res):
        if getattr(F, "caller", False):
            return []
        db = F.g["db"]
        C = bv(IDX, "C")
        p, l = F.old[1].items[0].arr, F.old[2].term
        F.I.same_sets("closure-computed", F.g["q"], INT, [v.arr for v in F.old[1].items])
        return [("exactly-once", FA(C, F.g["Y"](C) == If(self.visible(F, C, db.out(p, l, C)), 1, 0)))]

    def havoc_ghost(self, I, Lc):
        F = I.F
        F.g["Y"] = self.fresh_Y(I)


class Inner(_Inner):
    """yields each closed frequent set C with prefix p and l = max(C - p) exactly once, with its support and tids"""
    target = f"{MOD}::LCM._inner"
    cls = "LCM"

    def loop_spec(self, Lc, ordn, depth):
        if ordn != 0 or depth:
            return None
        I, F = Lc.I, Lc.I.F
        Y0 = F.g["Y"]
        cand, q = Lc.itv, F.g["q"]
        db = F.g["db"]
        self.before_loop(I, F, cand)

        def inv(Lc, i):
            C = bv(IDX, "C")
            j = ints(1)
            db = F.g["db"]
            q = F.g["q"]
            m = db.mx(C, q)
            return [("once", FA(C, F.g["Y"](C) == Y0(C) + If(And(
                EX(j, And(rng(j, 0, i), Select(cand.arr, j) == m)), self.visible(F, C, db.out(q, m, C))), 1, 0), [F.g["Y"](C)]))]

        def body(Lc, i):
            m = Select(cand.arr, i)
            u = L.set_op(I, "and", F.old[1].items[1], SetV(INT, Select(db.arr, m)))
            self.same(I, "extension-computed", u, F.g["U"](m))
        return LoopSpec(inv, at_body=body)


class InnerMax(_Inner):
    """yields closed frequent sets with prefix p and l = max(C - p), each at most once, among them every maximal one"""
    target = f"{MOD}::LCMMax._inner"
    cls = "LCMMax"

    def visible(self, F, C, f):
        return f

    def setup(self, I, F):
        super().setup(I, F)
        db = F.g["db"]
        # maximal(C): no index can be added
        mxl = F.g["maximal"] = z3.Function("maximal", IDX.sort(), z3.BoolSort())
        C = bv(IDX, "C")
        m = ints(1)
        X = z3.Store(C, m, T)
        I.pc.append(FA([C, m], Implies(And(mxl(C), db.dom(m), Not(Select(C, m))), R(card(db.Tf(X))) < db.ms),
                       [z3.MultiPattern(mxl(C), db.Tf(X))]))
        self.child = F.g["child"] = None

    def on_yield_from(self, I, F, v, line):
        db, q = F.g["db"], F.g["q"]
        Yc = self.fresh_Y(I)
        C = bv(IDX, "C")
        I.pc.append(FA(C, self.spec(F, Yc(C), C, db.out(v.p, v.l, C)), [Yc(C)]))
        self.bump(I, F, lambda C: Yc(C))

    def spec(self, F, y, C, here):
        return And(y >= 0, y <= 1, Implies(y > 0, here), Implies(And(F.g["maximal"](C), here), y == 1))

    def ensures(self, F, res):
        if getattr(F, "caller", False):
            return []
        F.I.same_sets("closure-computed", F.g["q"], INT, [v.arr for v in F.old[1].items])
        db = F.g["db"]
        C = bv(IDX, "C")
        p, l = F.old[1].items[0].arr, F.old[2].term
        return [("sound-and-all-maximal", FA(C, self.spec(F, F.g["Y"](C), C, db.out(p, l, C))))]

    def loop_spec(self, Lc, ordn, depth):
        if ordn != 0 or depth:
            return None
        I, F = Lc.I, Lc.I.F
        cand, q = Lc.itv, F.g["q"]
        db = F.g["db"]
        self.before_loop(I, F, cand)
        flags = [k for k, v in I.env.items() if isinstance(v, Sc) and v.ty == BOOL and k in I.roots_modified(Lc.node.body)[0]]

        def inv(Lc, i):
            C = bv(IDX, "C")
            j = ints(1)
            m = db.mx(C, q)
            out = [("once", FA(C, self.spec(F, F.g["Y"](C), C, And(EX(j, And(rng(j, 0, i), Select(cand.arr, j) == m)), db.out(q, m, C))),
                               [F.g["Y"](C)]))]
            return out + [(f"leaf-{k}", Implies(F.g["maximal"](q), I.env[k].term)) for k in flags]

        def body(Lc, i):
            m = Select(cand.arr, i)
            u = L.set_op(I, "and", F.old[1].items[1], SetV(INT, Select(db.arr, m)))
            self.same(I, "extension-computed", u, F.g["U"](m))
            I.seed(db.Tf(z3.Store(q, m, T)))
        return LoopSpec(inv, at_body=body)


def _frame(I, a, k, line):
    """pandas.DataFrame(data=rows, columns=names): the rows and the names"""
    L.used(I, "pandas.DataFrame(data=iterator, columns=names) holds exactly the rows of the iterator, in order")
    d = k.get("data", a[0] if a else NONE)
    return RecV("pandas.DataFrame", {"data": d, "columns": k.get("columns", NONE), "empty": I.fresh_val("empty", BOOL)})


def _inner_call(I, s, a, k, line):
    """the call of _inner for one root: its precondition is proved here; it yields each set of out({}, root) once"""
    F = I.F
    me = F.old[0].attrs
    p, t = [L.as_set(I, v) for v in a[0].items]
    if p.ety is None:
        settle(p, IDX)
    item, l = F.old[1].term, a[1].term
    x = ints(1)
    if s is not F.args[0] or k or len(a) != 2:
        I.prove("call._inner.form", F_, line)
    I.prove("call._inner.root", l == item, line)
    I.prove("call._inner.prefix-empty", FA(x, Not(Select(p.arr, x))), line)
    I.prove("call._inner.tids", FA(x, Select(t.arr, x) == Select(Select(me["item_to_tids_"].arr, l), x)), line)
    I.prove("call._inner.frequent", R(card(t.arr)) >= me["min_supp_"].term, line)
    g = GenV(z3.IntVal(0), None, z3.IntVal(0))
    g.root = l
    return g


class ExploreRoot(_Inner):
    """one root gives the rows of _inner for that root; every non-empty closed frequent set has exactly one root"""
    target = f"{MOD}::LCM._explore_root"
    cls = "LCM"
    is_generator = False
    extra = {"pandas.DataFrame": _frame}
    world_methods = {(f"{MOD}::LCM", "_inner"): _inner_call,
                     ("pandas.DataFrame", "__len__"): lambda I, s, a, k, line: I.fresh_val("rows", INT)}

    def make_args(self, I):
        me = self.make_self(I)
        me.attrs["verbose"] = I.fresh_val("verbose", BOOL)
        item = I.fresh_val("item", INT)
        return [me, item, SetV(INT, Select(me.attrs["item_to_tids_"].arr, item.term)), NONE]

    def requires(self, F):
        db = F.I.F.g.setdefault("db", Db(F.I, F.args[0]))
        l = F.args[1].term
        return [("item", db.dom(l)), ("frequent", R(card(F.args[2].arr)) >= db.ms)]

    def setup(self, I, F):
        pass

    def init_yield(self, I, F):
        pass

    def havoc_ghost(self, I, Lc):
        pass

    def loop_spec(self, Lc, ordn, depth):
        return None

    def ensures(self, F, res):
        I, db = F.I, F.g["db"]
        keep = list(I.pc)
        dT, dC, fin = db.defs()
        dO, dM = db.out_defs()
        none = z3.K(z3.IntSort(), F_)
        C = bv(IDX, "C")
        l, m, x, t = ints(4)
        mx = db.mx(C, none)
        empty = FA(x, Not(Select(none, x)), [Select(none, x)])
        sub0 = FA(C, sub(none, C), [sub(none, C)])

        def lemma(name, f, using):
            I.pc = list(using)
            I.prove("lemma." + name, f, kind="lemma")
            I.pc = keep
        lemma("single", FA([l, t], Select(db.Tf(z3.Store(none, l, T)), t) == Select(Select(db.arr, l), t)), dT)
        lemma("every-set-has-a-root", FA([C, x], Implies(And(db.closed(C), R(card(db.Tf(C))) >= db.ms, Select(C, x)), And(
            db.out(none, mx, C), db.dom(mx)))), dC + dO + dM + [sub0, empty])
        lemma("only-one-root", FA([C, l, m], Implies(And(db.out(none, l, C), db.out(none, m, C)), l == m)), dO + [empty])
        ok = isinstance(res, RecV) and res.cls == "pandas.DataFrame" and getattr(res.attrs["data"], "root", None) is not None
        cols = res.attrs["columns"] if ok else None
        w = F.old[0].attrs["return_tids_"].term
        named = F_
        if isinstance(cols, (TupV, SeqV)):
            c = as_type(cols, SeqT(OBJ))
            named = And(c.n == If(w, 3, 2), *[Implies(k < c.n, Select(c.arr, k) == theory.text_const(t))
                                              for k, t in enumerate(("itemset", "support", "tids"))])
        return [("rows", z3.BoolVal(bool(ok))), ("columns", named)]
