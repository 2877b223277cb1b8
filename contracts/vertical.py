"""vertical form of transactions: item -> identifiers (skmine/itemsets/slim.py, skmine/itemsets/lcm.py)"""
from pyvc.contract import *
from pyvc.spec import *
from pyvc import lib as L, theory

DB = SeqT(SeqT(OBJ))
TIDS = SetT(INT)
VERT = MapT(OBJ, TIDS)


class Holds:
    """holds(t, k): transaction t has item k"""

    def __init__(self, I, D):
        s = SeqT(OBJ).sort()
        self.D = D
        seen = I.__dict__.setdefault("databases", [])      # one relation for each database
        at = [i for i, d in enumerate(seen) if d.arr.eq(D.arr) and d.n.eq(D.n)]
        n = f"{at[0]}" if at else f"{len(seen)}"
        if not at:
            seen.append(SeqV(D.ety, D.n, D.arr))
        f = self.f = z3.Function("holds" + n, z3.IntSort(), OBJ.sort(), z3.BoolSort())
        w = self.w = z3.Function("holds_at" + n, z3.IntSort(), OBJ.sort(), z3.IntSort())
        self.len = lambda t: s.accessor(0, 0)(Select(D.arr, t))
        self.at = lambda t, j: Select(s.accessor(0, 1)(Select(D.arr, t)), j)
        t, j = ints(2)
        k = bv(OBJ, "k")
        I.pc += [FA([t, j], Implies(And(rng(t, 0, D.n), rng(j, 0, self.len(t))), f(t, self.at(t, j))), [self.at(t, j)]),
                 FA([t, k], Implies(f(t, k), And(rng(t, 0, D.n), rng(w(t, k), 0, self.len(t)), self.at(t, w(t, k)) == k)), [f(t, k)])]


class _Vertical(Contract):
    """loops that build the vertical form"""

    def vertical(self, F, m, i, keep):
        """m is the vertical form of the first i transactions, for the items keep"""
        h = F.g["holds"]
        k, t = bv(OBJ, "k"), ints(1)
        S = lambda k, t: Select(Select(m.arr, k), t)
        some = F.g.setdefault("some", z3.Function("some_tid", OBJ.sort(), z3.IntSort()))
        return [("items", FA(k, Select(m.dom, k) == EX(t, And(rng(t, 0, i), h.f(t, k), keep(k))), [Select(m.dom, k)])),
                ("items'", FA([k, t], Implies(And(rng(t, 0, i), h.f(t, k), keep(k)), Select(m.dom, k)), [h.f(t, k)])),
                ("tids", FA([k, t], Implies(Select(m.dom, k), S(k, t) == And(rng(t, 0, i), h.f(t, k), keep(k))), [S(k, t)])),
                ("tids'", FA([k, t], Implies(Select(m.dom, k), S(k, t) == And(rng(t, 0, i), h.f(t, k), keep(k))), [h.f(t, k)]))]

    def keep(self, F):
        return lambda k: T

    def counter(self, Lc, i):
        """locals that count the iterations"""
        import ast
        tgt = {n.id for n in ast.walk(Lc.node.target) if isinstance(n, ast.Name)}
        ent = getattr(Lc, "entry", Lc.I.env)
        out = []
        for k, v0 in sorted(ent.items()):
            v = Lc.I.env.get(k)
            if not (isinstance(v0, Sc) and isinstance(v, Sc) and v.ty == INT and v0.ty == INT):
                continue
            if k in tgt:
                out.append((f"last-{k}", v.term == If(i > 0, i - 1, v0.term)))
            elif any(isinstance(b, ast.AugAssign) and isinstance(b.target, ast.Name) and b.target.id == k
                     and isinstance(b.op, ast.Add) and isinstance(b.value, ast.Constant) and b.value.value == 1 for b in Lc.node.body):
                out.append((f"count-{k}", v.term == v0.term + i))
        return out

    def loop_spec(self, Lc, ordn, depth):
        if depth:
            return None
        I, F = Lc.I, Lc.F
        ety = Lc.get(z3.IntVal(0)).ty if Lc.get is not None else None
        if ety in (SeqT(OBJ), TupT(INT, SeqT(OBJ))) and "outer" not in F.g or F.g.get("outer") is Lc.node:
            F.g["outer"] = Lc.node
            F.g["L"] = Lc
            return LoopSpec(lambda Lc, i: self.vertical(F, Lc.mod_of(VERT), i, self.keep(F)) + self.counter(Lc, i))
        if ety == OBJ and isinstance(Lc.itv, SeqV) and F.g.get("L") is not None:
            h, keep = F.g["holds"], self.keep(F)
            out = F.g["L"]

            def inv(Lc, i):
                m = Lc.mod_of(VERT)
                T_ = out.i
                k, t, j = bv(OBJ, "k"), *ints(2)
                S = lambda k, t: Select(Select(m.arr, k), t)
                seen = lambda k: EX(j, And(rng(j, 0, i), Select(Lc.itv.arr, j) == k, keep(k)))
                old = lambda k: EX(t, And(rng(t, 0, T_), h.f(t, k), keep(k)))
                body = lambda k, t: S(k, t) == Or(And(rng(t, 0, T_), h.f(t, k), keep(k)), And(t == T_, seen(k)))
                return [("items", FA(k, Select(m.dom, k) == Or(old(k), seen(k)), [Select(m.dom, k)])),
                        ("items'", FA([k, t], Implies(And(rng(t, 0, T_), h.f(t, k), keep(k)), Select(m.dom, k)), [h.f(t, k)])),
                        ("items''", FA(j, Implies(And(rng(j, 0, i), keep(Select(Lc.itv.arr, j))), Select(m.dom, Select(Lc.itv.arr, j))),
                                       [Select(Lc.itv.arr, j)])),
                        ("tids", FA([k, t], Implies(Select(m.dom, k), body(k, t)), [S(k, t)]))]
            return LoopSpec(inv)
        return None


class ToVertical(_Vertical):
    """item -> set of the transactions holding it, for the items not stopped; and the number of transactions"""
    target = "skmine/itemsets/slim.py::_to_vertical"

    def make_args(self, I):
        return [I.fresh_val("D", DB), I.fresh_val("stop_items", SetT(OBJ)), I.fresh_val("return_len", BOOL)]

    def requires(self, F):
        F.g["holds"] = Holds(F.I, F.args[0])
        return [("not-empty", F.args[0].n > 0)]

    def keep(self, F):
        stop = F.old[1]
        return lambda k: T if isinstance(stop, NoneV) else Not(Select(stop.arr, k))

    def fresh_result(self, I, F):
        n = F.args[2]
        if not (isinstance(n, Sc) and z3.is_false(z3.simplify(n.term))):
            raise Unsupported("return_len")
        return I.fresh_val("vertical", VERT)

    def ensures(self, F, res):
        D = F.old[0]
        if isinstance(res, TupV):
            m, n = res.items
            return [("length-asked", F.old[2].term), ("length", n.term == D.n)] + self.vertical(F, as_type(m, VERT), D.n, self.keep(F))
        return [("length-not-asked", Not(F.old[2].term))] + self.vertical(F, as_type(res, VERT), D.n, self.keep(F))


class _Fit(_Vertical):
    """the items with enough transactions, most frequent first, renamed by rank, with exactly their transactions"""
    target = "skmine/itemsets/lcm.py::LCM.fit"
    sty = INT
    world_methods = {("skmine/itemsets/lcm.py::LCM", "_validate_data"): lambda I, s, a, k, line: NONE}

    def make_args(self, I):
        me = RecV("skmine/itemsets/lcm.py::LCM", {"min_supp": I.fresh_val("min_supp", self.sty)})
        return [me, I.fresh_val("D", DB), NONE]

    def requires(self, F):
        F.g["holds"] = Holds(F.I, F.args[1])
        ms = F.args[0].attrs["min_supp"].term
        return [("not-empty", F.args[1].n > 0), ("domain", ms >= 1 if self.sty == INT else And(ms >= 0, ms <= 1))]

    def threshold(self, F):
        ms = F.old[0].attrs["min_supp"].term
        return R(ms) if self.sty == INT else ms * R(F.old[1].n)

    def ensures(self, F, res):
        I, me, D = F.I, F.args[0].attrs, F.old[1]
        h = F.g["holds"]
        card = theory.card_fn(INT)
        m, o = me.get("item_to_tids_"), me.get("ord_item_freq_")
        if not isinstance(m, MapV) or not isinstance(o, (SeqV, TupV)) or "min_supp_" not in me:
            return [("fitted", F_)]
        o = as_type(o, SeqT(OBJ))
        m = as_type(m, MapT(INT, TIDS))
        i, j, t = ints(3)
        k = bv(OBJ, "k")
        U = z3.Function("all_tids", OBJ.sort(), TIDS.sort())
        I.pc.append(FA([k, t], Select(U(k), t) == h.f(t, k), [Select(U(k), t)]))
        thr = self.threshold(F)
        complete = FA(k, Implies(And(R(card(U(k))) >= thr, EX(t, h.f(t, k))), EX(j, And(rng(j, 0, o.n), Select(o.arr, j) == k))))
        v = F.g.get("m0")
        if v is not None:
            I.try_lemma("before", FA([k, t], Implies(Select(v.dom, k), Select(Select(v.arr, k), t) == Select(U(k), t)), [Select(v.dom, k)]),
                        FA(k, Implies(Select(v.dom, k), Select(v.arr, k) == U(k)), [Select(v.dom, k)]))
        for v in [v for v in I.env.values() if isinstance(v, MapV) and v.ty == VERT][:1]:
            if I.try_lemma("whole", FA([k, t], Implies(Select(v.dom, k), Select(Select(v.arr, k), t) == Select(U(k), t)), [Select(v.dom, k)]),
                           FA(k, Implies(Select(v.dom, k), Select(v.arr, k) == U(k)), [Select(v.dom, k)])):
                kept = FA(k, Implies(And(R(card(U(k))) >= thr, EX(t, h.f(t, k))), Select(v.dom, k)), [U(k)])
                listed = FA(k, Implies(Select(v.dom, k), EX(j, And(rng(j, 0, o.n), Select(o.arr, j) == k))), [Select(v.dom, k)])
                if I.try_lemma("kept", kept) and I.try_lemma("listed", listed):
                    keep, I.pc = I.pc, [kept, listed]
                    ok = I.try_lemma("kept-listed", complete)
                    I.pc = keep + [complete] * ok
        return [("threshold", R(me["min_supp_"].term) == thr), ("parameter-unchanged", me["min_supp"].term == F.old[0].attrs["min_supp"].term),
                ("ranks", FA(i, Select(m.dom, i) == rng(i, 0, o.n))),
                ("distinct", FA([i, j], Implies(And(0 <= i, i < j, j < o.n), Select(o.arr, i) != Select(o.arr, j)))),
                ("tids", FA([i, t], Implies(rng(i, 0, o.n), Select(Select(m.arr, i), t) == h.f(t, Select(o.arr, i))))),
                ("by-frequency", FA([i, j], Implies(And(0 <= i, i < j, j < o.n), card(Select(m.arr, i)) >= card(Select(m.arr, j))))),
                ("frequent", FA(i, Implies(rng(i, 0, o.n), R(card(Select(m.arr, i))) >= thr))),
                ("complete", complete),
                ("returns-self", z3.BoolVal(res is F.args[0]))]

    def loop_spec(self, Lc, ordn, depth):
        import ast
        F = Lc.F
        ety = Lc.get(z3.IntVal(0)).ty if Lc.get is not None else None
        if depth:
            return None
        inside = F.g.get("outer") is not None and any(n is Lc.node for n in ast.walk(F.g["outer"]))
        if ety == OBJ and isinstance(Lc.itv, SeqV) and not inside:      # items to drop
            def inv(Lc, i):
                m = Lc.mod_of(VERT)
                m0 = Lc.old(m)
                F.g["m0"] = m0
                k, j = bv(OBJ, "k"), ints(1)
                low = Lc.itv
                return [("kept", FA(k, Implies(Select(m.dom, k), And(Select(m0.dom, k), Select(m.arr, k) == Select(m0.arr, k))), [Select(m.dom, k)])),
                        ("dropped", FA(j, Implies(rng(j, 0, i), Not(Select(m.dom, Select(low.arr, j)))), [Select(low.arr, j)])),
                        ("others", FA(k, Or(Select(m.dom, k), Not(Select(m0.dom, k)), EX(j, And(rng(j, 0, i), Select(low.arr, j) == k))), [Select(m.dom, k), Select(m0.dom, k)]))]
            return LoopSpec(inv)
        pair = TupT(OBJ, TIDS)
        if ety in (TupT(INT, pair), pair):
            acc = pair.sort()

            def inv(Lc, i):
                m, o = Lc.mod_of(MapT(INT, TIDS)), Lc.mod_of(SeqT(OBJ))
                j, = [ints(1)]
                out = []
                el = lambda j: to_term(Lc.get(j).items[1] if ety != pair else Lc.get(j))
                if o is not None:
                    out += [("count", o.n == i), ("items", FA(j, Implies(rng(j, 0, i), Select(o.arr, j) == acc.accessor(0, 0)(el(j))), [Select(o.arr, j), el(j)]))]
                if m is not None:
                    out += [("ranks", FA(j, Select(m.dom, j) == rng(j, 0, i), [Select(m.dom, j)])),
                            ("tids", FA(j, Implies(rng(j, 0, i), Select(m.arr, j) == acc.accessor(0, 1)(el(j))), [Select(m.arr, j)]))]
                return out
            return LoopSpec(inv)
        return super().loop_spec(Lc, ordn, depth)


class FitInt(_Fit):
    variant = "absolute"


class FitFloat(_Fit):
    variant, sty = "relative", REAL
