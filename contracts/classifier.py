"""one SLIM model per class (skmine/itemsets/slim_classifier.py)"""
from pyvc.contract import *
from pyvc.spec import *
from pyvc import lib as L, theory

MOD = "skmine/itemsets/slim_classifier.py"
ME = f"{MOD}::SlimClassifier"
IS, OS = z3.IntSort(), OBJ.sort()
ROWS = SeqT(OBJ)
rlen, rarr = ROWS.sort().accessor(0, 0), ROWS.sort().accessor(0, 1)
ITEMS, PRUNING = z3.Function("model_items", OS, OS), z3.Function("model_pruning", OS, OS)
FLAG = z3.ArraySort(OS, z3.BoolSort())
COUNT, ON = z3.ArraySort(OS, IS), z3.ArraySort(OS, ROWS.sort())


def _unique(I, a, k, line):
    if len(a) != 1 or k or not isinstance(a[0], SeqV):
        raise Unsupported("np.unique")
    L.used(I, "numpy.unique: the distinct values")
    y = a[0]
    v = I.fresh_val("classes", SeqT(y.ety))
    i, j = ints(2)
    at, cl = I.fresh_fn("at", IS, IS), I.fresh_fn("class_of", IS, IS)
    I.pc += [FA([i, j], Implies(And(rng(i, 0, v.n), rng(j, 0, v.n), Select(v.arr, i) == Select(v.arr, j)), i == j),
                [z3.MultiPattern(Select(v.arr, i), Select(v.arr, j))]),
             FA(i, Implies(rng(i, 0, v.n), And(rng(at(i), 0, y.n), Select(y.arr, at(i)) == Select(v.arr, i))), [Select(v.arr, i)]),
             FA(i, Implies(rng(i, 0, y.n), And(rng(cl(i), 0, v.n), Select(v.arr, cl(i)) == Select(y.arr, i))), [Select(y.arr, i)])]
    return SeqV(v.ety, v.n, v.arr, "array")


def _slim(I, a, k, line):
    if a or set(k) - {"items", "pruning"}:
        raise Unsupported("construction of SLIM")
    L.used(I, "SLIM(items=, pruning=): a new model with these parameters")
    F = I.F
    m = I.fresh("model", OS)
    I.pc += [Not(Select(F.g["made"], m)), ITEMS(m) == (k["items"].term if "items" in k else z3.Const("None", OS)),
             PRUNING(m) == (k["pruning"].term if "pruning" in k else z3.Const("default_pruning", OS))]
    F.g["made"] = z3.Store(F.g["made"], m, T)
    return Sc(OBJ, m)


def _fit(I, s, a, k, line):
    if len(a) == 1 and not k and isinstance(s, Sc):
        L.used(I, "SLIM.fit: fits the model it is called on (P01, P02)")
        g = I.F.g
        d = settled(a[0], ROWS)
        g["on"] = z3.Store(g["on"], s.term, to_term(d))
        g["fits"] = z3.Store(g["fits"], s.term, Select(g["fits"], s.term) + 1)
        return s


def _nothing(I, s, a, k, line):
    L.used(I, "sklearn _validate_data: checks only")
    return NONE


class Fit(Contract):
    """one model per class, with the parameters given, fitted once, on the transactions of the class in their order"""
    target = f"{ME}.fit"
    world_extra = {"numpy.unique": _unique, "class SLIM": _slim}
    world_methods = {(ME, "_validate_data"): _nothing, ("Sc", "fit"): _fit}
    modifies = ()

    def make_args(self, I):
        return [RecV(ME, {"items": I.fresh_val("items", OBJ), "pruning": I.fresh_val("pruning", OBJ)}), I.fresh_val("X", ROWS), I.fresh_val("y", SeqT(OBJ))]

    def requires(self, F):
        return [("one-label-each", F.args[1].n == F.args[2].n)]

    def setup(self, I, F):
        F.g.update(made=I.fresh("made", FLAG), on=I.fresh("on", ON), fits=I.fresh("fits", COUNT))
        m = bv(OBJ)
        I.pc.append(FA(m, Implies(Not(Select(F.g["made"], m)), Select(F.g["fits"], m) == 0), [Select(F.g["fits"], m)]))
        s, c = ints(1), bv(OBJ)
        self.ind = I.fresh_fn("in_class", OS, z3.ArraySort(IS, IS))
        I.pc.append(FA([c, s], Select(self.ind(c), s) == If(Select(F.old[2].arr, s) == c, 1, 0), [Select(self.ind(c), s)]))

    def of_class(self, F, l, c):
        """l are the transactions of class c: that at s comes after those of the class before s"""
        s = ints(1)
        X, y = F.old[1], F.old[2]
        return And(rlen(l) == psum(self.ind(c), X.n),
                   FA(s, Implies(And(rng(s, 0, X.n), Select(y.arr, s) == c), Select(rarr(l), psum(self.ind(c), s)) == Select(X.arr, s)), [Select(y.arr, s)]))

    def ranks(self, I, F, v, c):
        """the filter keeps the transactions at s at the place counted by those kept before s"""
        X, y = F.old[1], F.old[2]
        s, t = I.fresh("s", IS), ints(1)
        src, dst = v.srcmap, v.dstmap
        ok = lambda s: And(0 <= psum(self.ind(c), s), psum(self.ind(c), s) <= v.n,
                           FA(t, Implies(rng(t, 0, v.n), (t < psum(self.ind(c), s)) == (src(t) < s)), [src(t)]))
        I.prove("lemma.rank.start", ok(z3.IntVal(0)), kind="lemma")
        I.seed(src(psum(self.ind(c), s)), dst(s), Select(y.arr, s), Select(X.arr, s), src(dst(s)))
        I.prove("lemma.rank.step", Implies(And(rng(s, 0, X.n), ok(s)), ok(s + 1)), kind="lemma")
        I.prove("lemma.rank.place", Implies(And(rng(s, 0, X.n), ok(s), Select(y.arr, s) == c), dst(s) == psum(self.ind(c), s)), kind="lemma")
        I.pc += [ok(X.n)]
        s2 = ints(1)
        I.pc.append(FA(s2, Implies(And(rng(s2, 0, X.n), Select(y.arr, s2) == c), dst(s2) == psum(self.ind(c), s2)), [Select(y.arr, s2)]))
        I.seed(src(v.n - 1))
        I.prove("lemma.rank.all", v.n == psum(self.ind(c), X.n), kind="lemma")
        I.pc.append(v.n == psum(self.ind(c), X.n))

    def loop_spec(self, Lc, ordn, depth):
        I, F = Lc.I, Lc.I.F
        if depth:
            return None
        me = F.args[0].attrs
        cls = me.get("classes_")
        if not isinstance(cls, SeqV):
            return None
        el = Lc.get(ints(1)) if Lc.n is not None else None
        first = isinstance(el, Sc)
        start = dict(F.g)

        def inv(Lc, k):
            if first and not Lc.I.typing:
                for v in list(Lc.I.env.values()):
                    if isinstance(v, SeqV) and hasattr(v, "dstmap") and not hasattr(v, "ranked"):
                        v.ranked = True
                        self.ranks(Lc.I, F, v, Select(cls.arr, k - 1))
            xs, ms = settled(me["classes_X_"], SeqT(ROWS)), settled(me["models_"], SeqT(OBJ))
            n = k if first else cls.n
            i, j = ints(2)
            m = Select(ms.arr, i)
            out = [("numbers", And(xs.n == n, ms.n == n)),
                   ("data", FA(i, Implies(rng(i, 0, n), self.of_class(F, Select(xs.arr, i), Select(cls.arr, i))), [Select(xs.arr, i)])),
                   ("parameters", FA(i, Implies(rng(i, 0, n), And(ITEMS(m) == F.old[0].attrs["items"].term, PRUNING(m) == F.old[0].attrs["pruning"].term)), [m])),
                   ("made", FA(i, Implies(rng(i, 0, n), Select(F.g["made"], m)), [m])),
                   ("distinct", FA([i, j], Implies(And(0 <= i, i < j, j < n), m != Select(ms.arr, j)), [z3.MultiPattern(m, Select(ms.arr, j))]))]
            x = bv(OBJ)
            if first:
                out += [("not-yet", FA(i, Implies(rng(i, 0, n), Select(F.g["fits"], m) == 0), [m])),
                        ("not-yet-others", FA(x, Implies(Not(Select(F.g["made"], x)), Select(F.g["fits"], x) == 0), [Select(F.g["fits"], x)]))]
            else:
                out += [("fitted", FA(i, Implies(rng(i, 0, k), And(Select(F.g["fits"], m) == 1, Select(F.g["on"], m) == Select(xs.arr, i))), [m])),
                        ("not-yet", FA(i, Implies(rng(i, k, n), Select(F.g["fits"], m) == 0), [m]))]
            return out
        return LoopSpec(inv)

    def havoc_ghost(self, I, Lc):
        for k, s in (("made", FLAG), ("on", ON), ("fits", COUNT)):
            I.F.g[k] = I.fresh(k, s)

    def fresh_result(self, I, F):
        return F.args[0]

    def ensures(self, F, res):
        me = F.args[0].attrs
        if not all(isinstance(me.get(k), SeqV) for k in ("classes_", "models_", "classes_X_")):
            return [("fitted", F_)]
        cls, ms = me["classes_"], settled(me["models_"], SeqT(OBJ))
        i, s = ints(2)
        m, y = Select(ms.arr, i), F.old[2]
        wh = F.I.fresh_fn("wh", IS, IS)
        return [("itself", z3.BoolVal(res is F.args[0])), ("one-per-class", ms.n == cls.n),
                ("classes-are-labels", FA(i, Implies(rng(i, 0, cls.n), EX(s, And(rng(s, 0, y.n), Select(y.arr, s) == Select(cls.arr, i)))), [Select(cls.arr, i)])),
                ("every-label", FA(s, Implies(rng(s, 0, y.n), EX(i, And(rng(i, 0, cls.n), Select(y.arr, s) == Select(cls.arr, i)))), [Select(y.arr, s)])),
                ("fitted-once", FA(i, Implies(rng(i, 0, cls.n), Select(F.g["fits"], m) == 1), [m])),
                ("on-its-samples", FA(i, Implies(rng(i, 0, cls.n), self.of_class(F, Select(F.g["on"], m), Select(cls.arr, i))), [m])),
                ("parameters", FA(i, Implies(rng(i, 0, cls.n), And(ITEMS(m) == F.old[0].attrs["items"].term, PRUNING(m) == F.old[0].attrs["pruning"].term)), [m]))]


CLEN = z3.Function("code_lengths", OS, ROWS.sort(), z3.ArraySort(IS, z3.RealSort()))
VEC = SeqT(REAL)
vlen, varr = VEC.sort().accessor(0, 0), VEC.sort().accessor(0, 1)


def _code_length(I, s, a, k, line):
    if len(a) == 1 and not k and isinstance(s, Sc):
        L.used(I, "SLIM.get_code_length: one number per transaction, a function of model and transactions (P03); changes nothing")
        X = settled(a[0], ROWS)
        return SeqV(REAL, X.n, CLEN(s.term, to_term(X)), "array")


def _vstack(I, a, k, line):
    v = a[0]
    if len(a) == 1 and not k and isinstance(v, SeqV) and v.ety == VEC:
        L.used(I, "numpy.vstack, .T, .argmax(axis=1): per column of the stacked rows, the first row with the largest value")
        i, n = ints(1), I.F.old[1].n
        I.safe("ValueError", And(v.n > 0, FA(i, Implies(rng(i, 0, v.n), vlen(Select(v.arr, i)) == n), [Select(v.arr, i)])), line, "ValueError")
        return RecV("rows", {"rows": v, "n": Sc(INT, n)})
    raise Unsupported("np.vstack")


def _T(I, base, attr, line):
    if isinstance(base, RecV) and base.cls == "rows" and attr == "T":
        return RecV("columns", base.attrs)
    if isinstance(base, SeqV) and attr == "values":
        return base


def _argmax(I, s, a, k, line):
    if isinstance(s, RecV) and s.cls == "columns" and not a and set(k) == {"axis"} and L._intval(k["axis"]) == 1:
        rows, n = s.attrs["rows"], s.attrs["n"].term
        v = I.fresh_val("best", SeqT(INT))
        c, r = ints(2)
        at = lambda r, c: Select(varr(Select(rows.arr, r)), c)
        b = Select(v.arr, c)
        I.pc += [v.n == n, FA(c, Implies(rng(c, 0, n), rng(b, 0, rows.n)), [b]),
                 FA([c, r], Implies(And(rng(c, 0, n), rng(r, 0, rows.n)), And(at(r, c) <= at(b, c), Implies(r < b, at(r, c) < at(b, c)))),
                    [z3.MultiPattern(b, Select(rows.arr, r))])]
        return SeqV(INT, v.n, v.arr, "array")
    raise Unsupported("argmax")


class Predict(Contract):
    """one label per sample, in order, of a class whose model gives the sample a smallest code length"""
    target = f"{ME}.predict"
    world_extra = {"numpy.vstack": _vstack, "sklearn.utils.validation.check_is_fitted": lambda I, a, k, line: NONE}
    world_methods = {("Sc", "get_code_length"): _code_length, ("columns", "argmax"): _argmax}
    attr_hooks = [_T]

    def make_args(self, I):
        c = I.fresh_val("classes", SeqT(OBJ))
        return [RecV(ME, {"classes_": SeqV(OBJ, c.n, c.arr, "array"), "models_": I.fresh_val("models", SeqT(OBJ))}), I.fresh_val("X", ROWS)]

    def requires(self, F):
        me = F.args[0].attrs
        return [("fitted", And(me["models_"].n == me["classes_"].n, me["models_"].n > 0))]

    def fresh_result(self, I, F):
        return I.fresh_val("labels", SeqT(OBJ))

    def ensures(self, F, res):
        me, X = F.old[0].attrs, F.old[1]
        settle(res, SeqT(OBJ))
        s, k, j = ints(3)
        ms, cls = me["models_"], me["classes_"]
        cl = lambda k: Select(CLEN(Select(ms.arr, k), to_term(X)), s)
        now = F.args[0].attrs
        return [("one-each", res.n == X.n),
                ("shortest", FA(s, Implies(rng(s, 0, X.n), EX(k, And(rng(k, 0, cls.n), Select(res.arr, s) == Select(cls.arr, k),
                    FA(j, Implies(rng(j, 0, cls.n), cl(k) <= cl(j)), [Select(ms.arr, j)])))), [Select(res.arr, s)])),
                ("model-unchanged", And(now["models_"].arr == ms.arr, now["models_"].n == ms.n, now["classes_"].arr == cls.arr, now["classes_"].n == cls.n))]


def _exp(I, a, k, line):
    L.used(I, "numpy.exp: increasing, positive, 1 at 0")
    f = z3.Function("exp", z3.RealSort(), z3.RealSort())
    if "exp" not in theory.REG:
        x, y = bv(REAL), bv(REAL)
        theory.REG["exp"] = [f(z3.RealVal(0)) == 1, FA(x, f(x) > 0, [f(x)]), FA([x, y], Implies(x < y, f(x) < f(y)), [z3.MultiPattern(f(x), f(y))])]
    return I.world.elementwise(I, a[0], lambda v: Sc(REAL, f(coerce_term(v, REAL))), line)


class Decision(Contract):
    """one value per transaction, in (0, 1], larger the shorter the code"""
    target = "skmine/itemsets/slim.py::SLIM.decision_function"
    world_extra = {"numpy.exp": _exp}
    world_methods = {("skmine/itemsets/slim.py::SLIM", "get_code_length"): lambda I, s, a, k, line: _code_length(I, s.attrs["id"], a, k, line)}

    def make_args(self, I):
        return [RecV("skmine/itemsets/slim.py::SLIM", {"id": I.fresh_val("model", OBJ)}), I.fresh_val("D", ROWS)]

    def requires(self, F):
        i, D = ints(1), F.args[1]
        c = Select(CLEN(F.args[0].attrs["id"].term, to_term(D)), i)
        return [("lengths", FA(i, Implies(rng(i, 0, D.n), c > 0), [c]))]

    def fresh_result(self, I, F):
        return I.fresh_val("prob", VEC)

    def ensures(self, F, res):
        i, j, D = ints(1), ints(1), F.old[1]
        c = lambda i: Select(CLEN(F.old[0].attrs["id"].term, to_term(D)), i)
        p = lambda i: Select(res.arr, i)
        one = z3.Function("exp", z3.RealSort(), z3.RealSort())(z3.RealVal(0))
        F.I.seed(one)
        return [("one-each", res.n == D.n), ("in-range", FA(i, Implies(rng(i, 0, D.n), And(0 < p(i), p(i) <= 1)), [p(i)])),
                ("shorter-is-larger", FA([i, j], Implies(And(rng(i, 0, D.n), rng(j, 0, D.n)), And((c(i) < c(j)) == (p(i) > p(j)))), [z3.MultiPattern(p(i), p(j))]))]
