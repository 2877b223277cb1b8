"""synthetic data, readers and descriptions (skmine/datasets)"""
from pyvc.contract import *
from pyvc.spec import *
from pyvc import lib as L, theory
from pyvc.lib import used

GENERATOR = "skmine/datasets/_samples_generator.py"
ROW_ = SeqT(INT)
ROWS = SeqT(ROW_)


# ---------------------------------------------------------------------- stubs of numpy
def rs_stub(I, a, k, line):
    used(I, "numpy.random.RandomState(seed): a generator whose draws are a function of the seed, apart from the global one")
    I.F.g.setdefault("generators", [])
    r = RecV("RandomState", {"seed": a[0] if a else k.get("seed", NONE)})
    I.F.g["generators"].append(r)
    return r


def from_seed(I, s, line):
    seed = I.F.g["seed"]
    I.prove("drawn-from-the-seed", z3.BoolVal(s.attrs["seed"] is seed), line, "post")


def param(I, a, k, names, defaults=()):
    v = dict(zip(names, a))
    for n, x in k.items():
        if n not in names or n in v:
            raise Unsupported(f"argument {n}")
        v[n] = x
    for n in names:
        if n not in v:
            if n not in dict(defaults):
                raise Unsupported(f"argument {n} missing")
            v[n] = dict(defaults)[n]
    return [v[n] for n in names]


def binomial_stub(I, s, a, k, line):
    used(I, "RandomState.binomial(n, p, size): size draws between 0 and int(n), centred on n * p")
    from_seed(I, s, line)
    n, p, size = param(I, a, k, ["n", "p", "size"])
    n_, p_ = coerce_term(n, REAL), coerce_term(p, REAL)
    I.safe("binomial.n", n_ >= 0, line, "ValueError")
    I.safe("binomial.p", And(p_ >= 0, p_ <= 1), line, "ValueError")
    I.safe("binomial.size", size.term >= 0, line, "ValueError")
    arr = I.fresh("draw", z3.ArraySort(z3.IntSort(), z3.IntSort()))
    j = ints(1)
    I.assume(FA(j, Implies(rng(j, 0, size.term), And(Select(arr, j) >= 0, R(Select(arr, j)) <= n_)), [Select(arr, j)]))
    I.F.g["draws"] = (arr, size.term)
    d, m = I.F.args[2].term, R(I.F.args[1].term)
    I.prove("sizes-centred-on-the-density", n_ * p_ == d * m, line)
    return SeqV(INT, size.term, arr, "array")


def choice_stub(I, s, a, k, line):
    used(I, "RandomState.choice(a, size, replace=False): size elements of a at different positions; ValueError when a has fewer")
    from_seed(I, s, line)
    c, size, rep, p = param(I, a, k, ["a", "size", "replace", "p"], [("p", NONE)])
    if not (isinstance(rep, Sc) and z3.is_false(z3.simplify(rep.term))) or not isinstance(p, NoneV) or not isinstance(c, SeqV):
        raise Unsupported("choice with replacement")
    I.safe("choice", And(0 <= size.term, size.term <= c.n), line, "ValueError")
    at = I.fresh_fn("picked", z3.IntSort(), z3.IntSort())
    arr = I.fresh("choice", c.arr.sort())
    back = I.fresh_fn("back", z3.IntSort(), z3.IntSort())
    j = I.bvar("j", z3.IntSort())
    I.assume(I.forall([j], Implies(rng(j, 0, size.term), And(rng(at(j), 0, c.n), back(at(j)) == j, Select(arr, j) == Select(
        c.arr, at(j)))), [Select(arr, j)]))
    return SeqV(c.ety, size.term, arr, "array")


def arange_stub(I, a, k, line):
    used(I, "numpy.arange(start, stop): the integers from start to stop - 1")
    if len(a) == 1 and not k:
        st, sp = Sc(INT, z3.IntVal(0)), a[0]
    else:
        st, sp = param(I, a, k, ["start", "stop"])
    if st.ty != INT or sp.ty != INT:
        raise Unsupported("arange of floats")
    arr = I.fresh("arange", z3.ArraySort(z3.IntSort(), z3.IntSort()))
    j = ints(1)
    n = If(sp.term > st.term, sp.term - st.term, z3.IntVal(0))
    I.assume(FA(j, Implies(rng(j, 0, n), Select(arr, j) == st.term + j), [Select(arr, j)]))
    return SeqV(INT, n, arr, "array")


def clip_stub(I, a, k, line):
    used(I, "numpy.clip(a, lo, hi): min(max(x, lo), hi) for each x")
    v, lo, hi = param(I, a, k, ["a", "a_min", "a_max"])
    f = lambda x: If(If(x < lo.term, lo.term, x) > hi.term, hi.term, If(x < lo.term, lo.term, x))
    arr = I.fresh("clipped", v.arr.sort())
    j = ints(1)
    I.assume(FA(j, Implies(rng(j, 0, v.n), Select(arr, j) == f(Select(v.arr, j))), [Select(arr, j)]))
    return SeqV(v.ety, v.n, arr, "array")


def series_stub(I, a, k, line):
    used(I, "pandas.Series(list) holds the elements of the list in order")
    if len(a) != 1 or set(k) - {"name"}:
        raise Unsupported("Series")
    v = L.list_of(I, a[0])
    return SeqV(v.ety, v.n, v.arr, "series")


NUMPY = {"numpy.random.RandomState": rs_stub, "numpy.arange": arange_stub, "numpy.clip": clip_stub, "pandas.Series": series_stub}
RNG = {("RandomState", "binomial"): binomial_stub, ("RandomState", "choice"): choice_stub}
srow = ROW_.sort()
row_len = lambda t: srow.accessor(0, 0)(t)
row_at = lambda t, j: Select(srow.accessor(0, 1)(t), j)


def row_ok(row, start, stop, m):
    """at most m distinct items of [start, stop)"""
    i, j = ints(2)
    return And(row_len(row) >= 0, row_len(row) <= m,
               FA(j, Implies(rng(j, 0, row_len(row)), And(start <= row_at(row, j), row_at(row, j) < stop)), [row_at(row, j)]),
               FA([i, j], Implies(And(0 <= i, i < j, j < row_len(row)), row_at(row, i) != row_at(row, j)),
                  [z3.MultiPattern(row_at(row, i), row_at(row, j))]))


class MakeTransactions(Contract):
    """as many transactions as asked for, each of at most n_items distinct items between item_start and item_start + n_items,
    of sizes drawn around density * n_items (unchanged unless one exceeds n_items), with draws of the seed only; a density
    outside (0, 1) is rejected with ValueError, and nothing else is"""
    target = f"{GENERATOR}::make_transactions"
    may_raise = frozenset(["ValueError"])
    world_extra, world_methods = NUMPY, RNG
    defaults = {"n_transactions": 1000, "n_items": 100, "density": 0.5, "random_state": None, "item_start": 0}

    def make_args(self, I):
        return [I.fresh_val("n_transactions", INT), I.fresh_val("n_items", INT), I.fresh_val("density", REAL),
                I.fresh_val("random_state", OBJ), I.fresh_val("item_start", INT)]

    def requires(self, F):
        return [("at-least-one", F.args[0].term >= 1), ("some-items", F.args[1].term >= 1)]

    def setup(self, I, F):
        F.g["seed"] = F.args[3]

    def dom(self, F):
        return And(0 < F.args[2].term, F.args[2].term < 1)

    def raises(self, F):
        return [("ValueError", Not(self.dom(F)))]

    def ensures(self, F, res):
        n, m, d, _, st = F.old
        res = as_type(res, ROWS)
        if not (isinstance(res, SeqV) and res.ety == ROW_):
            return [("transactions", F_)]
        t, j = ints(2)
        out = [("accepted-in-domain", self.dom(F)), ("number", res.n == n.term),
               ("transactions", FA(t, Implies(rng(t, 0, n.term), row_ok(Select(res.arr, t), st.term, st.term + m.term, m.term)),
                                   [Select(res.arr, t)]))]
        if not getattr(F, "caller", False):
            arr, _ = F.g["draws"]
            out.append(("sizes", Implies(FA(j, Implies(rng(j, 0, n.term), Select(arr, j) <= m.term), [Select(arr, j)]),
                                         FA(t, Implies(rng(t, 0, n.term), row_len(Select(res.arr, t)) == Select(arr, t))))))
            M, lo, i = ints(3)
            top = And(EX(i, And(rng(i, 0, n.term), Select(arr, i) == M)), FA(j, Implies(rng(j, 0, n.term), Select(arr, j) <= M), [Select(arr, j)]))
            bot = And(EX(i, And(rng(i, 0, n.term), Select(arr, i) == lo)), FA(j, Implies(rng(j, 0, n.term), lo <= Select(arr, j)), [Select(arr, j)]))
            a, b = lo + M - m.term, m.term
            x = lambda t: If(Select(arr, t) < a, a, Select(arr, t))
            out.append(("sizes-cut-evenly", FA([M, lo, t], Implies(And(top, bot, M > m.term, rng(t, 0, n.term)), row_len(
                Select(res.arr, t)) == If(x(t) > b, b, x(t))))))
        return out

    def fresh_result(self, I, F):
        v = I.fresh_val("transactions", ROWS)
        v.kind = "series"
        return v

    def on_raise(self, F, exc):
        return [("error-type", z3.BoolVal(exc == "ValueError")), ("rejected-outside-domain", Not(self.dom(F)))]


# ---------------------------------------------------------------------- classes
FROW = TupT(ROW_, INT)
FRAME = SeqT(FROW)
fsort, frsort = FRAME.sort(), FROW.sort()
tr_of, class_of = (lambda t: frsort.accessor(0, 0)(t)), (lambda t: frsort.accessor(0, 1)(t))
fr_len, fr_at = (lambda t: fsort.accessor(0, 0)(t)), (lambda t, j: Select(fsort.accessor(0, 1)(t), j))


def to_frame_stub(I, s, a, k, line):
    used(I, "Series.to_frame: one row per element, in order")
    (name,) = param(I, a, k, ["name"])
    if not (isinstance(name, StrV) and name.s == "transaction") or s.ety != ROW_:
        raise Unsupported("to_frame")
    arr = I.fresh("frame", z3.ArraySort(z3.IntSort(), FROW.sort()))
    j = ints(1)
    I.assume(FA(j, Implies(rng(j, 0, s.n), tr_of(Select(arr, j)) == Select(s.arr, j)), [Select(arr, j)]))
    return SeqV(FROW, s.n, arr, "frame")


def loc_attr(I, base, attr, line):
    if attr == "loc" and isinstance(base, SeqV) and base.ety == FROW:
        return FnV("loc", of=base)


def set_class(I, base, key, v, line):
    whole = lambda x: isinstance(x, FnV) and x.kind == "slice" and all(isinstance(y, NoneV) for y in (x.lo, x.hi, x.step))
    named = lambda x: isinstance(x, StrV) and x.s == "class"
    if isinstance(base, FnV) and base.kind == "loc":
        ok = isinstance(key, TupV) and len(key.items) == 2 and whole(key.items[0]) and named(key.items[1])
        f = base.of
    else:
        ok, f = named(key), base
    if not (isinstance(f, SeqV) and f.ety == FROW):
        return False
    if not ok or not (isinstance(v, Sc) and v.ty == INT):
        raise Unsupported("assignment to a frame")
    used(I, "DataFrame column assignment gives every row the value")
    arr = I.fresh("classed", f.arr.sort())
    j = ints(1)
    I.assume(FA(j, Implies(rng(j, 0, f.n), Select(arr, j) == FROW.sort().constructor(0)(tr_of(Select(f.arr, j)), v.term)), [Select(arr, j)]))
    f.arr = arr
    return True


def column(I, base, key, line):
    if isinstance(base, SeqV) and base.ety == FROW and base.kind == "frame" and isinstance(key, StrV):
        ty, acc = {"transaction": (ROW_, tr_of), "class": (INT, class_of)}[key.s]
        arr = I.fresh("column", z3.ArraySort(z3.IntSort(), ty.sort()))
        j = ints(1)
        I.assume(FA(j, Implies(rng(j, 0, base.n), Select(arr, j) == acc(Select(base.arr, j))), [Select(arr, j)]))
        r = SeqV(ty, base.n, arr, "series")
        r.rows = base.rows
        return r


def concat_stub(I, a, k, line):
    used(I, "pandas.concat of frames: their rows, each once")
    fs = a[0]
    if len(a) != 1 or not isinstance(fs, SeqV) or fs.ety != FRAME or set(k) - {"axis"} or (
            "axis" in k and not z3.simplify(k["axis"].term).eq(z3.IntVal(0))):
        raise Unsupported("concat")
    I.safe("concat", fs.n > 0, line, "ValueError")
    N = I.fresh("rows", z3.IntSort())
    arr = I.fresh("concat", z3.ArraySort(z3.IntSort(), FROW.sort()))
    C, P = I.fresh_fn("of_frame", z3.IntSort(), z3.IntSort()), I.fresh_fn("of_row", z3.IntSort(), z3.IntSort())
    K = I.fresh_fn("place", z3.IntSort(), z3.IntSort(), z3.IntSort())
    q, c, r = ints(3)
    fr = lambda c: Select(fs.arr, c)
    I.assume(N >= 0)
    I.assume(FA(q, Implies(rng(q, 0, N), And(rng(C(q), 0, fs.n), rng(P(q), 0, fr_len(fr(C(q)))), K(C(q), P(q)) == q,
                                             Select(arr, q) == fr_at(fr(C(q)), P(q)))), [Select(arr, q)]))
    I.assume(FA([c, r], Implies(And(rng(c, 0, fs.n), rng(r, 0, fr_len(fr(c)))), And(rng(K(c, r), 0, N), C(K(c, r)) == c,
                                                                                   P(K(c, r)) == r)), [K(c, r)]))
    out = SeqV(FROW, N, arr, "frame")
    out.rows = (C, P, K)
    return out


def sample_stub(I, s, a, k, line):
    used(I, "DataFrame.sample(frac=1, random_state): the rows in an order drawn from the seed")
    frac, rs = param(I, a, k, ["frac", "random_state"])
    if not z3.simplify(coerce_term(frac, REAL)).eq(z3.RealVal(1)):
        I.prove("every-row-kept", F_, line)
    I.prove("drawn-from-the-seed", z3.BoolVal(rs is I.F.g["seed"]), line)
    p, b = I.fresh_fn("perm", z3.IntSort(), z3.IntSort()), I.fresh_fn("perm_back", z3.IntSort(), z3.IntSort())
    arr = I.fresh("sampled", s.arr.sort())
    q = ints(1)
    I.assume(FA(q, Implies(rng(q, 0, s.n), And(rng(p(q), 0, s.n), b(p(q)) == q, Select(arr, q) == Select(s.arr, p(q)))), [Select(arr, q)]))
    I.assume(FA(q, Implies(rng(q, 0, s.n), And(rng(b(q), 0, s.n), p(b(q)) == q)), [b(q)]))
    C, P, K = s.rows
    out = SeqV(FROW, s.n, arr, "frame")
    out.rows = (lambda q: C(p(q)), lambda q: P(p(q)), lambda c, r: b(K(c, r)))
    I.F.g["sampled"] = True
    return out


def almost_stub(I, a, k, line):
    used(I, "numpy.testing.assert_almost_equal: AssertionError unless the numbers are close")
    x, y = coerce_term(a[0], REAL), coerce_term(a[1], REAL)
    I.safe("weights", x == y, line, "AssertionError")
    return NONE


class MakeClassification(Contract):
    """the rows are those of the classes, each once: class c has int(weight * n_samples) transactions of distinct items between
    c * step and c * step + n_items_per_class (step: the share class_sep of the items), labelled c, with draws of the seed only"""
    target = f"{GENERATOR}::make_classification"
    world_extra = {"pandas.concat": concat_stub, "numpy.testing.assert_almost_equal": almost_stub}
    world_methods = {("SeqV", "to_frame"): to_frame_stub, ("SeqV", "sample"): sample_stub}
    attr_hooks, setitem_hooks, getitem_hooks = [loc_attr], [set_class], [column]
    defaults = {"n_samples": 100, "n_items_per_class": 100, "n_classes": 2, "weights": None, "class_sep": 0.2, "shuffle": True,
                "random_state": None, "densities": None}
    given = True

    def make_args(self, I):
        return [I.fresh_val("n_samples", INT), I.fresh_val("n_items", INT), I.fresh_val("n_classes", INT),
                I.fresh_val("weights", SeqT(REAL)) if self.given else NONE, I.fresh_val("class_sep", REAL), I.fresh_val("shuffle", BOOL),
                I.fresh_val("random_state", OBJ), I.fresh_val("densities", SeqT(REAL)) if self.given else NONE]

    def weight(self, F):
        w, n = F.args[3], F.args[2].term
        return (lambda c: Select(w.arr, c)) if self.given else (lambda c: 1 / R(n))

    # the number of samples of class c and the first item of class c, named so that triggers can speak about them
    size = staticmethod(z3.Function("samples_of_class", z3.IntSort(), z3.IntSort()))
    first = staticmethod(z3.Function("first_item_of_class", z3.IntSort(), z3.IntSort()))

    def requires(self, F):
        ns, ni, nc, w, sep, _, _, d = F.args
        c = ints(1)
        out = [("classes", nc.term >= 1), ("items", ni.term >= 1), ("separation", And(0 <= sep.term, sep.term <= 1)),
               ("a-sample-per-class", FA(c, Implies(rng(c, 0, nc.term), self.weight(F)(c) * R(ns.term) >= 1),
                                         [Select(w.arr, c)] if self.given else None))]
        if self.given:
            out += [("weights", And(w.n == nc.term, psum(w.arr, w.n) == 1)), ("densities", And(d.n == nc.term, FA(
                c, Implies(rng(c, 0, nc.term), And(0 < Select(d.arr, c), Select(d.arr, c) < 1)), [Select(d.arr, c)])))]
        return out

    def setup(self, I, F):
        F.g["seed"] = F.args[6]
        c, w = ints(1), self.weight(F)
        I.pc.append(FA(c, self.size(c) == z3.ToInt(w(c) * R(F.args[0].term)), [self.size(c)]))
        F.g["step"] = z3.ToInt(R(F.args[1].term) * F.args[4].term)      # first(c) is defined as c * step
        I.pc.append(self.first(z3.IntVal(0)) == 0)
        if not self.given:
            # n times 1 / n is 1, by induction on the number of summands
            x = 1 / R(F.args[2].term)
            arr = z3.K(z3.IntSort(), x)
            k = I.fresh("k", z3.IntSort())
            n = F.args[2].term
            I.prove("lemma.equal-weights.start", psum(arr, z3.IntVal(0)) == 0, 0)
            I.prove("lemma.equal-weights.step", Implies(And(k >= 0, psum(arr, k) == R(k) * x), psum(arr, k + 1) == R(k + 1) * x), 0)
            I.pc.append(psum(arr, If(n > 0, n, z3.IntVal(0))) == R(n) * x)
            I.pc.append(psum(arr, n) == R(n) * x)

    def call_hook(self, I, fn, args, kwargs, line):
        if isinstance(fn, FnV) and fn.kind == "func" and fn.name == "make_transactions":
            v = dict(zip(["n_transactions", "n_items", "density", "random_state", "item_start"], args), **kwargs)
            if "random_state" not in v or "density" not in v or "loop" not in I.F.g:
                raise Unsupported("call of make_transactions")
            I.prove("drawn-from-the-seed", z3.BoolVal(v["random_state"] is I.F.g["seed"]), line)
            d = I.F.old[7]
            I.prove("density-of-the-class", coerce_term(v["density"], REAL) == (
                Select(d.arr, I.F.g["loop"].i) if self.given else z3.RealVal("1/2")), line)
        return None

    def class_ok(self, F, rows_len, row, c, upto):
        """the transactions row(0..rows_len-1) are those of class c"""
        m = F.args[1].term
        r = ints(1)
        return And(rows_len == self.size(c), FA(r, Implies(rng(r, 0, rows_len), row_ok(row(r), self.first(c), self.first(c) + m, m)), [row(r)]))

    def loop_spec(self, L_, ordn, depth):
        if depth:
            return None
        F, I = L_.F, L_.I
        rs = ROWS.sort()
        n_of, at_of = (lambda t: rs.accessor(0, 0)(t)), (lambda t, j: Select(rs.accessor(0, 1)(t), j))
        MT = MapT(INT, ROWS)
        if isinstance(L_.itv, RangeV):
            F.g["loop"] = L_

            def inv(L_, i):
                m, pad = L_.mod_of(MT), L_.mod_of(INT)
                c = ints(1)
                return [("offset", pad.term == self.first(i)),
                        ("classes", FA(c, Select(m.dom, c) == rng(c, 0, i), [Select(m.dom, c)])),
                        ("each", FA(c, Implies(rng(c, 0, i), self.class_ok(F, n_of(Select(m.arr, c)), lambda r: at_of(
                            Select(m.arr, c), r), c, i)), [Select(m.arr, c)]))]
            return LoopSpec(inv, at_body=lambda L_, i: [self.first(i + 1) == self.first(i) + F.g["step"]])
        if getattr(L_.itv, "items_of", None) is not None:
            m = L_.itv.items_of

            def inv(L_, i):
                en = L_.__dict__.setdefault("en", I.last_enum)
                F.g["classes"] = en
                v = L_.mod_of(SeqT(FRAME))
                q, r = ints(2)
                fr = lambda q: Select(v.arr, q)
                k = lambda q: Select(en[1], q)
                return [("frames", v.n == i),
                        ("lengths", FA(q, Implies(rng(q, 0, i), fr_len(fr(q)) == n_of(Select(m.arr, k(q)))), [fr(q)])),
                        ("rows", FA([q, r], Implies(And(rng(q, 0, i), rng(r, 0, fr_len(fr(q)))), And(
                            class_of(fr_at(fr(q), r)) == k(q), tr_of(fr_at(fr(q), r)) == at_of(Select(m.arr, k(q)), r))),
                            [fr_at(fr(q), r)]))]
            return LoopSpec(inv)
        return None

    def ensures(self, F, res):
        if not (isinstance(res, TupV) and len(res.items) == 2 and all(hasattr(x, "rows") for x in res.items)):
            raise Unsupported("result")
        D, y = res.items
        nc, m = F.args[2].term, F.args[1].term
        C0, P0, K0 = D.rows
        n, e, pos = F.g["classes"]
        C, K = (lambda q: Select(e, C0(q))), (lambda c, r: K0(pos(c), r))
        q, c, r = ints(3)
        X = bv(ROW_, "X")
        has = lambda q: And(rng(q, 0, D.n), X == Select(D.arr, q))
        return [("shuffled-when-asked", F.old[5].term == z3.BoolVal(F.g.get("sampled", False))), ("aligned", And(D.n == y.n, z3.BoolVal(D.rows is y.rows))),
                ("of-a-class", FA([q, X], Implies(has(q), rng(C(q), 0, nc)))),
                ("of-its-samples", FA([q, X], Implies(has(q), rng(P0(q), 0, self.size(C(q)))))),
                ("once", FA([q, X], Implies(has(q), K(C(q), P0(q)) == q))),
                ("each-once", FA([c, r], Implies(And(rng(c, 0, nc), rng(r, 0, self.size(c))), And(
                    rng(K(c, r), 0, D.n), C(K(c, r)) == c, P0(K(c, r)) == r)))),
                ("labels", FA(q, Implies(rng(q, 0, D.n), Select(y.arr, q) == C(q)), [Select(y.arr, q)])),
                ("transactions", FA(q, Implies(rng(q, 0, D.n), row_ok(Select(D.arr, q), self.first(C(q)), self.first(C(q)) + m, m)), [Select(D.arr, q)]))]


class MakeClassificationDefault(MakeClassification):
    """the same with equal weights and densities of one half"""
    variant, given = "default weights and densities", False


# ---------------------------------------------------------------------- readers
FIMI, DSUTILS = "skmine/datasets/fimi.py", "skmine/datasets/utils.py"
O = OBJ_SORT
TEXT = z3.Function("text_of_file", O, z3.BoolSort(), O)          # (path, decompressed?)
LINES_N, LINE = z3.Function("number_of_lines", O, z3.IntSort()), z3.Function("line", O, z3.ArraySort(z3.IntSort(), O))
RSTRIP = z3.Function("rstrip", O, O)
WORDS_N, WORD = z3.Function("number_of_parts", O, O, z3.IntSort()), z3.Function("part", O, O, z3.ArraySort(z3.IntSort(), O))
INT_OF = z3.Function("int_of", O, z3.IntSort())
JOIN = z3.Function("path_join", O, O, O)


def open_stub(gz):
    def h(I, a, k, line):
        used(I, "open and gzip.open give the text of the file")
        mode = a[1] if len(a) > 1 else k.get("mode", StrV("rb" if gz else "r"))
        if not isinstance(mode, StrV) or mode.s not in (("rt",) if gz else ("r", "rt")) or set(k) - {"mode", "encoding"}:
            raise Unsupported("open")
        return RecV("file", {"text": Sc(OBJ, TEXT(coerce_term(a[0], OBJ), z3.BoolVal(gz)))})
    return h


def read_stub(I, s, a, k, line):
    if a or k:
        raise Unsupported("read(n)")
    return s.attrs["text"]


def splitlines_stub(I, s, a, k, line):
    used(I, "str.splitlines, str.rstrip, str.split: functions of the text (and separator)")
    if a or k or s.ty != OBJ:
        raise Unsupported("splitlines")
    I.assume(LINES_N(s.term) >= 0)
    return SeqV(OBJ, LINES_N(s.term), LINE(s.term))


def rstrip_stub(I, s, a, k, line):
    if a or k or s.ty != OBJ:
        raise Unsupported("rstrip")
    return Sc(OBJ, RSTRIP(s.term))


def split_stub(I, s, a, k, line):
    (sep,) = param(I, a, k, ["sep"])
    t = coerce_term(sep, OBJ)
    I.assume(WORDS_N(s.term, t) >= 0)
    return SeqV(OBJ, WORDS_N(s.term, t), WORD(s.term, t))


STRINGS = {("Sc", "splitlines"): splitlines_stub, ("Sc", "rstrip"): rstrip_stub, ("Sc", "split"): split_stub, ("file", "read"): read_stub}


class ReadDat(Contract):
    """one transaction per line of the file, in order, holding the parts of the line between separators, in order"""
    target, variant = f"{FIMI}::_read_dat", "text"
    world_extra = {"open": open_stub(False), "gzip.open": open_stub(True)}
    world_methods = STRINGS
    ints = False
    defaults = {"int_values": True, "separator": " ", "zip": False}

    def make_args(self, I):
        return [I.fresh_val("filepath", OBJ), Sc(BOOL, z3.BoolVal(self.ints)), I.fresh_val("separator", OBJ), I.fresh_val("zip", BOOL)]

    def ensures(self, F, res):
        path, _, sep, gz = (coerce_term(x, BOOL if k in (1, 3) else OBJ) for k, x in enumerate(F.old))
        ety = INT if z3.is_true(z3.simplify(F.old[1].term)) else OBJ
        res = as_type(res, SeqT(SeqT(ety)))
        if not (isinstance(res, SeqV) and res.ety == SeqT(ety)):
            return [("transactions", F_)]
        s = SeqT(ety).sort()
        text = If(gz, TEXT(path, T), TEXT(path, F_))
        j, q = ints(2)
        x = lambda j: RSTRIP(Select(LINE(text), j))
        row = lambda j: Select(res.arr, j)
        item = lambda j, q: Select(s.accessor(0, 1)(row(j)), q)
        w = lambda j, q: Select(WORD(x(j), sep), q)
        return [("a-transaction-per-line", res.n == LINES_N(text)),
                ("sizes", FA(j, Implies(rng(j, 0, res.n), s.accessor(0, 0)(row(j)) == WORDS_N(x(j), sep)), [row(j)])),
                ("items", FA([j, q], Implies(And(rng(j, 0, res.n), rng(q, 0, WORDS_N(x(j), sep))), item(j, q) == (
                    INT_OF(w(j, q)) if ety == INT else w(j, q))), [item(j, q)]))]

    def fresh_result(self, I, F):
        t = z3.simplify(F.args[1].term)
        if not (z3.is_true(t) or z3.is_false(t)):
            raise Unsupported("kind of items not known")
        return I.fresh_val("transactions", SeqT(SeqT(INT if z3.is_true(t) else OBJ)))


class ReadDatInt(ReadDat):
    """the same with every part read as an integer"""
    variant, ints = "integers", True


def opaque(I, a, k, line):
    return OpaqueV("a name")


class FetchFile(ReadDat):
    """the transactions of the file"""
    target, variant = f"{FIMI}::fetch_file", "text"
    world_extra = {"pandas.Series": series_stub, "os.path.splitext": lambda I, a, k, line: TupV([OpaqueV("stem"), OpaqueV("ext")]),
                   "os.path.basename": opaque}
    world_methods = {}
    defaults = {"separator": " ", "int_values": False}

    def make_args(self, I):
        return [I.fresh_val("filepath", OBJ), I.fresh_val("separator", OBJ), Sc(BOOL, z3.BoolVal(self.ints))]

    def ensures(self, F, res):
        G = type(F)(F.I)
        G.old = [F.old[0], F.old[2], F.old[1], Sc(BOOL, F_)]
        return super().ensures(G, res)


class FetchFileInt(FetchFile):
    """the transactions of the file, of integers"""
    variant, ints = "integers", True


def listing_stub(I, a, k, line):
    used(I, "os.listdir: the names in the directory; wget.download stores the file where it is told to")
    return I.F.g.setdefault("listing", I.fresh_val("listing", SeqT(OBJ)))


def download_stub(I, a, k, line):
    if len(a) != 2 or k:
        raise Unsupported("download")
    F = I.F
    I.prove("downloaded-to-the-file-read", coerce_term(a[1], OBJ) == JOIN(F.old[2].term, F.old[0].term), line)
    F.g["downloaded"] = True
    return NONE


def join_stub(I, a, k, line):
    return Sc(OBJ, JOIN(coerce_term(a[0], OBJ), coerce_term(a[1], OBJ)))


class FetchAny(ReadDat):
    """the transactions of the file of that name in the data directory, decompressed exactly when it comes from the second archive"""
    target, variant = f"{FIMI}::fetch_any", ""
    world_extra = {"pandas.Series": series_stub, "os.path.splitext": lambda I, a, k, line: TupV([OpaqueV("stem"), OpaqueV("ext")]),
                   "os.path.join": join_stub, "os.listdir": listing_stub, "wget.download": download_stub}
    world_methods = {}
    defaults = {"data_home": None}

    def make_args(self, I):
        return [I.fresh_val("filename", OBJ), I.fresh_val("base_url", OBJ), I.fresh_val("data_home", OBJ)]

    def requires(self, F):
        from pyvc import theory
        return [("a-directory", F.I.truth(F.args[2]))]

    def ensures(self, F, res):
        m = F.I.world.module(FIMI)
        cgi = F.I.world.const_expr(F.I, m.consts["BASE_URL_CGI"], m)
        G = type(F)(F.I)
        G.old = [Sc(OBJ, JOIN(F.old[2].term, F.old[0].term)), Sc(BOOL, T), StrV(" "), Sc(BOOL, F.old[1].term == cgi.term)]
        ls = F.g.get("listing")
        have = L.contains(F.I, F.old[0], ls, 0) if ls is not None else F_
        return super().ensures(G, res) + [("downloaded-when-missing", z3.BoolVal(F.g.get("downloaded", False)) == Not(have))]


# ---------------------------------------------------------------------- descriptions
DB = SeqT(SeqT(OBJ))


def map_stub(I, s, a, k, line):
    used(I, "Series.map(f): f of each element")
    return L.list_of(I, I.world.b_map(I, [a[0], s], {}, line))


def mean_stub(I, s, a, k, line):
    used(I, "Series.mean: the sum of the elements by their number")
    return I.world.b_numpy_mean(I, [s], {}, line)


def chain_stub(I, a, k, line):
    used(I, "itertools.chain: the elements of every argument")
    v = a[0].val if len(a) == 1 and isinstance(a[0], FnV) and a[0].kind == "star" else None
    if not (isinstance(v, SeqV) and v.ety == SeqT(OBJ)):
        raise Unsupported("chain")
    return flattened(I, v)


def from_iterable_stub(I, a, k, line):
    if not (len(a) == 1 and isinstance(a[0], SeqV) and a[0].ety == SeqT(OBJ)):
        raise Unsupported("chain.from_iterable")
    return flattened(I, a[0])


def flattened(I, v):
    s = SeqT(OBJ).sort()
    n = I.fresh("chained", z3.IntSort())
    arr = I.fresh("chain", z3.ArraySort(z3.IntSort(), O))
    wt, wj = I.fresh_fn("of", z3.IntSort(), z3.IntSort()), I.fresh_fn("at", z3.IntSort(), z3.IntSort())
    pl = I.fresh_fn("place", z3.IntSort(), z3.IntSort(), z3.IntSort())
    q, t, j = ints(3)
    ln, at = (lambda t: s.accessor(0, 0)(Select(v.arr, t))), (lambda t, j: Select(s.accessor(0, 1)(Select(v.arr, t)), j))
    I.assume(n >= 0)
    I.assume(FA(q, Implies(rng(q, 0, n), And(rng(wt(q), 0, v.n), rng(wj(q), 0, ln(wt(q))), Select(arr, q) == at(wt(q), wj(q)))), [Select(arr, q)]))
    I.assume(FA([t, j], Implies(And(rng(t, 0, v.n), rng(j, 0, ln(t))), And(rng(pl(t, j), 0, n), Select(arr, pl(t, j)) == at(t, j))), [at(t, j)]))
    return SeqV(OBJ, n, arr)


class Describe(Contract):
    """the number of transactions and of distinct items, the average size (the sum of the sizes by their number), and the density
    (average size by number of items)"""
    target = f"{DSUTILS}::describe"
    world_extra = {"itertools.chain": chain_stub, "itertools.chain.from_iterable": from_iterable_stub}
    world_methods = {("SeqV", "map"): map_stub, ("SeqV", "apply"): map_stub, ("SeqV", "mean"): mean_stub}

    def make_args(self, I):
        v = I.fresh_val("D", DB)
        v.kind = "series"
        return [v]

    def requires(self, F):
        D = F.args[0]
        s = SeqT(OBJ).sort()
        t = ints(1)
        # at least one item
        F.g["t0"] = F.I.fresh("t0", z3.IntSort())
        return [("some-item", And(rng(F.g["t0"], 0, D.n), s.accessor(0, 0)(Select(D.arr, F.g["t0"])) > 0)),
                ("lengths", FA(t, s.accessor(0, 0)(Select(D.arr, t)) >= 0, [Select(D.arr, t)]))]

    def setup(self, I, F):
        D = F.args[0]
        s = SeqT(OBJ).sort()
        ln, at = (lambda t: s.accessor(0, 0)(Select(D.arr, t))), (lambda t, j: Select(s.accessor(0, 1)(Select(D.arr, t)), j))
        U = F.g["U"] = I.fresh("items", z3.ArraySort(O, z3.BoolSort()))      # the distinct items
        wt, wj = z3.Function("wt", O, z3.IntSort()), z3.Function("wj", O, z3.IntSort())
        x, (t, j) = bv(OBJ, "x"), ints(2)
        I.pc.append(FA(x, Implies(Select(U, x), And(rng(wt(x), 0, D.n), rng(wj(x), 0, ln(wt(x))), at(wt(x), wj(x)) == x)), [Select(U, x)]))
        I.pc.append(FA([t, j], Implies(And(rng(t, 0, D.n), rng(j, 0, ln(t))), Select(U, at(t, j))), [at(t, j)]))
        I.pc.append(Select(U, at(F.g["t0"], 0)))
        F.g["sizes"] = I.fresh("sizes", z3.ArraySort(z3.IntSort(), z3.IntSort()))
        I.pc.append(FA(t, Select(F.g["sizes"], t) == ln(t), [Select(F.g["sizes"], t)]))
        F.g["n_items"] = theory.card_fn(OBJ)(U)
        I.pc.append(F.g["n_items"] > 0)      # a finite set with an element

    def ensures(self, F, res):
        I, D = F.I, F.old[0]
        if not (isinstance(res, RecV) and res.cls == "dict"):
            return [("a-dict", F_)]
        g = res.attrs
        keys = ("n_items", "avg_transaction_size", "n_transactions", "density")
        if set(g) != set(keys):
            return [("keys", F_)]
        avg = R(psum(F.g["sizes"], D.n)) / R(D.n)
        I.same_sets("items", F.g["U"], OBJ)
        return [("n-transactions", g["n_transactions"].term == D.n),
                ("n-items", g["n_items"].term == F.g["n_items"]),
                ("average", coerce_term(g["avg_transaction_size"], REAL) == avg),
                ("density", coerce_term(g["density"], REAL) == avg / R(F.g["n_items"]))]
