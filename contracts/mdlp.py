"""discretisation (skmine/preprocessing/mdlp_discretizer.py)"""
from pyvc.contract import *
from pyvc.spec import *
from pyvc import lib as L, theory

MOD = "skmine/preprocessing/mdlp_discretizer.py"
IA = z3.ArraySort(z3.IntSort(), z3.IntSort())
INF = z3.Real("infinity")
ENT = z3.Function("entropy_of", IA, z3.IntSort(), z3.IntSort(), z3.RealSort())
CLS = z3.Function("classes_in", IA, z3.IntSort(), z3.IntSort(), z3.IntSort())
POW3 = z3.Function("pow3", z3.IntSort(), z3.IntSort())


def inf_hook(I, base, attr, line):
    if attr in ("inf", "Inf", "infty") and isinstance(base, FnV) and base.kind in ("global", "module") and getattr(base, "name", "") == "numpy":
        L.used(I, "infinity: a number larger than every finite value it is compared with")
        return Sc(REAL, INF)


def arr(I, name, ty=INT):
    v = I.fresh_val(name, SeqT(ty))
    v.kind = "array"
    return v


class Entropy(Contract):
    """(entropy in bits, number of classes) of the labels of a segment"""
    target = f"{MOD}::get_entropy_nb_ones"
    trusted = True

    def ensures(self, F, res):
        y = F.args[0]
        b, lo, hi = getattr(y, "slice_of", None) or (y.arr, z3.IntVal(0), y.n)
        return [("entropy", res.items[0].term == ENT(b, lo, hi)), ("classes", res.items[1].term == CLS(b, lo, hi))]

    def requires(self, F):
        return [("some-labels", F.args[0].n > 0)]

    def fresh_result(self, I, F):
        L.used(I, "get_entropy_nb_ones: the entropy (base 2) and number of classes of the segment (numpy.bincount, scipy.stats.entropy)")
        return TupV([I.fresh_val("H", REAL), I.fresh_val("k", INT)])


SCORE = z3.Function("split_score", IA, z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.RealSort())


def split_score(y, s, e, i):
    """entropies of the two parts weighted by their sizes: a name, given its meaning by score_def"""
    return SCORE(y, s, e, i)


def score_def(y, s, e, i):
    n = z3.RealVal(1) / R(e - s)
    return SCORE(y, s, e, i) == ENT(y, s, i) * (R(i - s) * n) + ENT(y, i, e) * (R(e - i) * n)


def boundary(y, i):
    return Select(y, i - 1) != Select(y, i)


def cut_spec(y, s, e, k):
    """k is a best boundary of [s, e), -1 without boundary"""
    i = ints(1)
    return [("none", (k == -1) == Not(EX(i, And(s < i, i < e, boundary(y, i))))),
            ("boundary", Or(k == -1, And(s < k, k < e, boundary(y, k)))),
            ("least-entropy", FA(i, Implies(And(s < i, i < e, boundary(y, i)), split_score(y, s, e, k) <= split_score(y, s, e, i)),
                                 [Select(y, i)]))]


class CutPoint(Contract):
    """-1 when all labels of [start, end) are equal, else a label change in it with the least weighted entropy"""
    target = f"{MOD}::generate_cut_point"
    attr_hooks = [inf_hook]
    reciprocal = True

    def make_args(self, I):
        return [arr(I, "y"), I.fresh_val("start", INT), I.fresh_val("end", INT)]

    def requires(self, F):
        y, s, e = F.args[0], F.args[1].term, F.args[2].term
        i = ints(1)
        if getattr(F, "caller", False):
            return [("segment", And(0 <= s, s < e, e <= y.n))]
        return [("segment", And(0 <= s, s < e, e <= y.n)),
                ("finite", FA(i, Implies(And(s < i, i < e), split_score(y.arr, s, e, i) < INF)))]

    def ensures(self, F, res):
        y, s, e = F.old[0].arr, F.old[1].term, F.old[2].term
        return cut_spec(y, s, e, res.term)

    def fresh_result(self, I, F):
        return I.fresh_val("cut", INT)

    def loop_spec(self, Lc, ordn, depth):
        F = Lc.F
        y, s, e = F.old[0].arr, F.old[1].term, F.old[2].term
        names = Lc.I.roots_modified(Lc.node.body)[0]
        ent = Lc.entry if hasattr(Lc, "entry") else Lc.I.env

        def inv(Lc, i):
            env = Lc.I.env
            base = getattr(Lc, "entry", env)
            best = [n for n in sorted(names) if n in base and isinstance(env.get(n), Sc) and env[n].ty == REAL]
            at = [n for n in sorted(names) if n in base and isinstance(env.get(n), Sc) and env[n].ty == INT and env[n] is not None]
            tgt = {getattr(Lc.node.target, "id", "")}
            at = [n for n in at if n not in tgt]
            if len(best) != 1 or len(at) != 1:
                from pyvc.engine import Mismatch
                raise Mismatch("best entropy and its index")
            b, k = env[best[0]].term, env[at[0]].term
            j = ints(1)
            done = lambda j: And(s < j, j < s + 1 + i)
            return [("start", Or(And(k == -1, b == INF, FA(j, Implies(done(j), Not(boundary(y, j))), [Select(y, j)])),
                                 And(done(k), boundary(y, k), b == split_score(y, s, e, k), b < INF))),
                    ("least", FA(j, Implies(And(done(j), boundary(y, j)), b <= split_score(y, s, e, j)), [Select(y, j)]))]
        return LoopSpec(inv, at_body=lambda Lc, i: [score_def(y, s, e, s + 1 + i)])


def mdl_accepts(y, s, e, k):
    """the criterion of Fayyad and Irani: H - P / N > Q / N, or N * H - P > Q"""
    N = R(e - s)
    H, H1, H2 = ENT(y, s, e), ENT(y, s, k), ENT(y, k, e)
    c, c1, c2 = R(CLS(y, s, e)), R(CLS(y, s, k)), R(CLS(y, k, e))
    P = R(k - s) * H1 + R(e - k) * H2
    delta = log2(R(POW3(CLS(y, s, e)) - 2)) - (c * H - c1 * H1 - c2 * H2)
    return N, H, P, log2(N - 1) + delta


def power(I, a, k, line):
    if isinstance(a[0], Sc) and a[0].py == 3 and a[1].ty == INT:
        return Sc(INT, POW3(a[1].term))


class Evaluate(Contract):
    """accepts a cut exactly when its information gain exceeds the MDL cost of Fayyad and Irani"""
    target = f"{MOD}::MDLPVectDiscretizer.evaluate"
    extra = {"pow": power}
    reciprocal = True

    def make_args(self, I):
        return [RecV(f"{MOD}::MDLPVectDiscretizer", {}), arr(I, "y")] + [I.fresh_val(n, INT) for n in ("start", "end", "cut")]

    def requires(self, F):
        y, s, e, k = F.args[1], *[v.term for v in F.args[2:]]
        x = ints(1)
        return [("cut-inside", And(0 <= s, s < k, k < e, e <= y.n)), ("powers", FA(x, Implies(x >= 1, POW3(x) >= 3))),
                ("classes", CLS(y.arr, s, e) >= 1)]

    def ensures(self, F, res):
        y, s, e, k = F.old[1].arr, *[v.term for v in F.old[2:]]
        I = F.I
        N, H, P, Q = mdl_accepts(y, s, e, k)
        v = [z3.Real(n) for n in ("N?", "H?", "P?", "Q?")]
        scale = lambda N, H, P, Q: Implies(N > 0, (H - 1 / N * P > 1 / N * Q) == (N * H - P > Q))
        keep, I.pc = I.pc, []
        I.prove("lemma.scale", scale(*v), kind="lemma")
        I.pc = keep + [scale(N, H, P, Q)]
        return [("mdl-criterion", I.truth(res) == (N * H - P > Q))]


CUT = z3.Function("cut_of", z3.IntSort(), z3.IntSort(), z3.IntSort())            # of the labels sorted along X
ACC = z3.Function("accepted", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.BoolSort())
POS = SetT(INT)


def split(s, e):
    return And(CUT(s, e) != -1, ACC(s, e, CUT(s, e)))


class _InFit(Contract):
    """the callees of fit, applied to the labels sorted along X"""

    def labels(self, F, y):
        I = F.I
        srt = I.F.g.get("argsort", [])
        if I.typing:
            return
        if len(srt) != 1 or "X0" not in I.F.g:
            from pyvc.engine import Mismatch
            raise Mismatch("one argsort expected")
        o, i = srt[0][1], ints(1)
        I.prove(f"call.{self.short}.labels-sorted-along-X", And(srt[0][0] == I.F.g["X0"], y.n == I.F.g["n"], FA(i, Implies(
            rng(i, 0, y.n), Select(y.arr, i) == Select(I.F.g["y0"], Select(o, i))))), kind="pre")


class CutInFit(_InFit):
    """see CutPoint"""
    target = f"{MOD}::generate_cut_point"

    def requires(self, F):
        self.labels(F, F.args[0])
        y, s, e = F.args[0], F.args[1].term, F.args[2].term
        return [("segment", And(0 <= s, s < e, e <= y.n))]

    def ensures(self, F, res):
        s, e, k = F.args[1].term, F.args[2].term, res.term
        g = F.I.F.g
        if "SP" in g and not F.I.typing:          # ghost: the accepted cuts, and where the interval of a start ends
            SP, NX = g["SP"], g["NX"]
            F.I.seed(*[theory.mark(x, "b") for x in (s, e, k, z3.IntVal(0))])
            g["SP"] = If(split(s, e), z3.Store(SP, k, T), SP)
            g["NX"] = If(split(s, e), z3.Store(z3.Store(NX, s, k), k, e), NX)
        return [("function", k == CUT(s, e)), ("cut-inside", Or(k == -1, And(s < k, k < e)))]

    def fresh_result(self, I, F):
        return I.fresh_val("cut", INT)


class EvaluateInFit(_InFit):
    """see Evaluate; some boolean when there is no cut (-1)"""
    target = f"{MOD}::MDLPVectDiscretizer.evaluate"

    def requires(self, F):
        self.labels(F, F.args[1])
        y, s, e, k = F.args[1], *[v.term for v in F.args[2:]]
        return [("cut-inside", And(0 <= s, s < e, e <= y.n, Or(k == -1, And(s < k, k < e))))]

    def ensures(self, F, res):
        s, e, k = [v.term for v in F.args[2:]]
        return [("decision", res.term == ACC(s, e, k))]

    def fresh_result(self, I, F):
        L.used(I, "MDLPVectDiscretizer.evaluate called without cut (-1) returns some boolean")
        return I.fresh_val("better", BOOL)


IV = TupT(INT, INT, INT)


class Fit(Contract):
    """the cut points are the midpoints at the accepted cuts of recursively split intervals; no interval left has an accepted cut"""
    target = f"{MOD}::MDLPVectDiscretizer.fit"
    attr_hooks = [inf_hook, lambda I, b, a, l: FnV("global", name="numpy.int64") if a == "dtype" and isinstance(b, SeqV) else None]

    def make_args(self, I):
        return [RecV(f"{MOD}::MDLPVectDiscretizer", {}), arr(I, "X", REAL), arr(I, "y")]

    def requires(self, F):
        X, y = F.args[1], F.args[2]
        F.g.update(X0=X.arr, y0=y.arr, n=X.n)
        i = ints(1)
        return [("same-length", And(X.n == y.n, X.n > 0)), ("inf", INF > 0),
                ("finite", FA(i, Implies(rng(i, 0, X.n), And(-INF < Select(X.arr, i), Select(X.arr, i) < INF)), [Select(X.arr, i)]))]

    def mid(self, F):
        o, X = F.g["argsort"][0][1], F.g["X0"]
        return lambda b: (Select(X, Select(o, b - 1)) + Select(X, Select(o, b))) / 2

    def table(self, F, cp, st):
        """accepted cuts SP, intervals still to process st, cut points so far cp"""
        SP, NX, n = F.g["SP"], F.g["NX"], F.g["n"]
        mid = self.mid(F)
        b, c, j, l = ints(4)
        p = bv(REAL, "p")
        s, e = z3.Int("s?"), z3.Int("e?")
        isb = lambda b: Or(b == 0, Select(SP, b))
        acc = IV.sort()
        S = lambda j: acc.accessor(0, 0)(Select(st.arr, j))
        E = lambda j: acc.accessor(0, 1)(Select(st.arr, j))
        mk = theory.mark
        mb = lambda b: theory.mark(b, "b")
        waiting = (lambda b: EX(j, And(mk(j), rng(j, 0, st.n), S(j) == b))) if st is not None else (lambda b: F_)
        out = [("cuts-inside", FA(b, Implies(Select(SP, b), And(0 < b, b < n)), [Select(SP, b)])),
               ("intervals", FA(b, Implies(And(mb(b), isb(b)), And(b < Select(NX, b), Select(NX, b) <= n, Or(Select(NX, b) == n, Select(SP, Select(NX, b))))),
                                [mb(b)])),
               ("consecutive", FA([b, c], Implies(And(mb(b), isb(b), Select(SP, c)), Or(c <= b, c >= Select(NX, b))),
                                  [z3.MultiPattern(mb(b), Select(SP, c))])),
               ("accepted", FA(c, Implies(Select(SP, c), EX([s, e], And(isb(s), Or(e == n, Select(SP, e)), s < c, c < e, split(s, e), CUT(s, e) == c))),
                               [Select(SP, c)])),
               ("points-are-cuts", FA(p, Implies(Select(cp, p), EX(c, And(Select(SP, c), mid(c) == p))), [Select(cp, p)])),
               ("done-or-waiting", FA(b, Implies(And(mb(b), isb(b)), Or(waiting(b), And(Not(split(b, Select(NX, b))), Or(b == 0, Select(cp, mid(b)))))),
                                      [mb(b)]))]
        if st is not None:
            out += [("waiting-intervals", FA(j, Implies(rng(j, 0, st.n), And(0 <= S(j), S(j) < E(j), E(j) <= n, isb(S(j)), Or(E(j) == n, Select(SP, E(j))),
                                                                           Select(NX, S(j)) == E(j))), [Select(st.arr, j)])),
                    ("distinct-intervals", FA([j, l], Implies(And(0 <= j, j < l, l < st.n), S(j) != S(l)),
                                              [z3.MultiPattern(Select(st.arr, j), Select(st.arr, l))]))]
        return out

    def loop_spec(self, Lc, ordn, depth):
        if depth or Lc.test is None:
            return None
        I, F = Lc.I, Lc.I.F
        if len(F.g.get("argsort", [])) != 1:
            return None
        if "SP" not in F.g:
            F.g["SP"] = z3.K(z3.IntSort(), F_)
            F.g["NX"] = I.fresh("NX", IA)
            I.pc.append(Select(F.g["NX"], 0) == F.g["n"])

        def inv(Lc, i):
            st, cp = Lc.mod_of(SeqT(IV)), Lc.mod_of(SetT(REAL))
            if not I.typing:
                I.seed(*[theory.mark(z3.simplify(st.n - d)) for d in (1, 2, 3)], theory.mark(z3.IntVal(0)), Select(F.g["NX"], 0))
            return self.table(F, cp.arr, st)
        return LoopSpec(inv)

    def havoc_ghost(self, I, Lc):
        if "SP" in I.F.g:
            I.F.g["SP"] = I.fresh("SP", POS.sort())
            I.F.g["NX"] = I.fresh("NX", IA)

    def ensures(self, F, res):
        c = F.args[0].attrs.get("cut_points_")
        if not isinstance(c, SeqV) or "SP" not in F.g:
            return [("fitted", F_)]
        I = F.I
        c = as_type(c, SeqT(REAL))
        p, j, l = bv(REAL, "p"), *ints(2)
        cp = I.fresh("points", SetT(REAL).sort())
        w = I.fresh_fn("at", z3.RealSort(), z3.IntSort())
        s = L.as_set(I, c)
        return [(n, f) for n, f in self.table(F, s.arr, None)] + [
            ("increasing", FA([j, l], Implies(And(0 <= j, j < l, l < c.n), Select(c.arr, j) < Select(c.arr, l)))),
            ("returns-self", z3.BoolVal(res is F.args[0]))]
