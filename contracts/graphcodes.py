"""code lengths of graph patterns (skmine/graph/graphmdl/utils.py)"""
from pyvc.contract import *
from pyvc.spec import *
from pyvc import lib as L, theory

MOD = "skmine/graph/graphmdl/utils.py"
RS, IS = z3.RealSort(), z3.IntSort()
fact = z3.Function("factorial", IS, RS)
if "factorial" not in theory.REG:
    m = ints(1, "m")
    theory.REG["factorial"] = [fact(0) == 1, FA(m, Implies(m > 0, And(fact(m) == R(m) * fact(m - 1), fact(m) > 0)), [fact(m)])]
pow2 = z3.Function("pow2", IS, IS)
flog = z3.Function("floor_log2", IS, IS)
if "pow2" not in theory.REG:
    m = ints(1, "m")
    theory.REG["pow2"] = [pow2(0) == 1, FA(m, Implies(m >= 0, And(pow2(m + 1) == 2 * pow2(m), pow2(m) > 0)), [pow2(m)])]
    x = ints(1, "x")
    # defined for x >= 1
    theory.REG["floor_log2"] = [FA(x, Implies(x >= 1, And(flog(x) >= 0, pow2(flog(x)) <= x, x < pow2(flog(x) + 1))), [flog(x)])]


def code_int(x):
    """Elias gamma-like universal code of an integer x >= 1"""
    return flog(x) + 2 * flog(flog(x) + 1) + 1


CH = z3.Function("choose", IS, IS, RS)
if "choose" not in theory.REG:
    n, k = ints(2)
    theory.REG["choose"] = [FA([n, k], Implies(And(0 <= k, k <= n), CH(n, k) * (fact(k) * fact(n - k)) == fact(n)), [CH(n, k)])]


class Binomial(Contract):
    """r = n! / (k! (n-k)!); refused when k > n"""
    target = f"{MOD}::binomial"
    may_raise = frozenset({"ValueError"})

    def make_args(self, I):
        return [I.fresh_val("n", INT), I.fresh_val("k", INT)]

    def requires(self, F):
        return [("non-negative", F.args[1].term >= 0)]

    def fresh_result(self, I, F):
        return I.fresh_val("choose", REAL)

    def ensures(self, F, res):
        n, k = F.args[0].term, F.args[1].term
        F.I.seed(fact(k), fact(n), fact(n - k), fact(k - 1), fact(n - 1), fact((n - 1) - (k - 1)), fact(n - (n - k)), CH(n - 1, k - 1), CH(n, n - k), CH(n, k))
        if getattr(F, "caller", False):
            return [("choose", R(res.term) == CH(n, k)), ("positive", res.term >= 1), ("within", k <= n)]
        I, r = F.I, R(res.term)
        prod = fact(k) * fact(n - k)
        J = ints(2)
        cut = [r * prod == fact(n)]
        if I.prove("ensures.product", cut[0]) is not False:
            a, b, c, d = [bv(RS) for _ in range(4)]
            keep, I.pc = I.pc, []
            I.prove("lemma.quotient", FA([a, b, c, d], Implies(And(a * b == d, c * b == d, b > 0), a == c)), kind="lemma")
            I.pc = keep + cut + [Implies(And(r * prod == fact(n), CH(n, k) * prod == fact(n), prod > 0), r == CH(n, k))]
        return [("choose", r == CH(n, k)), ("positive", res.term >= 1), ("within", k <= n)]

    def on_raise(self, F, exc):
        return [("refused", And(exc == "ValueError", F.old[1].term > F.old[0].term))]

    def raises(self, F):
        return [("ValueError", F.args[1].term > F.args[0].term)]


class UniversalInt(Contract):
    """floor(log2 x) + 2 floor(log2(floor(log2 x) + 1)) + 1; refused below 1"""
    target = f"{MOD}::universal_integer_encoding"
    may_raise = frozenset({"ValueError"})

    def make_args(self, I):
        return [I.fresh_val("x", INT)]

    def fresh_result(self, I, F):
        return I.fresh_val("code", INT)

    def setup(self, I, F):
        """math.log2 and powers of two"""
        L.used(I, "math.log2 is exact enough that its floor is that of the logarithm (true below 2**49)")
        x = ints(1, "x")
        lg = theory.log2_fn()
        fl = z3.ToInt(lg(R(x)))
        I.pc.append(FA(x, Implies(x >= 1, And(fl == flog(x), flog(x) >= 0)), [lg(R(x))]))

    def ensures(self, F, res):
        x = F.args[0].term
        return [("code", Implies(x >= 1, res.term == code_int(x))), ("whole", z3.BoolVal(res.ty == INT)), ("positive", res.term >= 1), ("domain", x >= 1)]

    def on_raise(self, F, exc):
        return [("refused", And(exc == "ValueError", F.old[0].term < 1))]

    def raises(self, F):
        return [("ValueError", F.args[0].term < 1)]


class UniversalInt0(Contract):
    """the code of x + 1; refused below 0"""
    target = f"{MOD}::universal_integer_encoding_with0"
    may_raise = frozenset({"ValueError"})

    def make_args(self, I):
        return [I.fresh_val("x", INT)]

    def fresh_result(self, I, F):
        return I.fresh_val("code", INT)

    def ensures(self, F, res):
        x = F.args[0].term
        return [("code", Implies(x >= 0, res.term == code_int(x + 1))), ("domain", x >= 0)]

    def on_raise(self, F, exc):
        return [("refused", And(exc == "ValueError", F.old[0].term < 0))]

    def raises(self, F):
        return [("ValueError", F.args[0].term < 0)]


def table(I):
    return RecV("skmine/graph/graphmdl/label_codes.py::LabelCodes", {"_vertexLC": I.fresh_val("vertexLC", MapT(OBJ, REAL)),
                "_edgeLC": I.fresh_val("edgeLC", MapT(OBJ, REAL)), "_total_label": I.fresh_val("total", REAL)})


def labels(t):
    card = theory.card_fn(OBJ)
    return card(t.attrs["_vertexLC"].dom) + card(t.attrs["_edgeLC"].dom)


NOTHING = [StrV("").term, z3.Const("None", OBJ.sort())]


class _Single(Contract):
    """log2(number of labels) + code(number of nodes + 1) + code of the label + code(1 + 1) + log2(places for the label)"""
    may_raise = frozenset({"ValueError"})
    which, nodes, places = "_vertexLC", 1, 1

    def make_args(self, I):
        return [table(I), I.fresh_val("label", OBJ)]

    def requires(self, F):
        t, l = F.args[0], F.args[-1].term
        return [("label-known", Or(*[l == n for n in NOTHING], Select(t.attrs[self.which].dom, l))),
                ("finite", And(*[theory.card_fn(OBJ)(t.attrs[m].dom) >= 0 for m in ("_vertexLC", "_edgeLC")]))]

    def fresh_result(self, I, F):
        return I.fresh_val("length", REAL)

    def length(self, t, l):
        return log2(R(labels(t))) + R(code_int(z3.IntVal(self.nodes + 1))) + Select(t.attrs[self.which].arr, l) + R(code_int(z3.IntVal(2))) \
            + log2(z3.RealVal(self.places))

    def setup(self, I, F):
        L.used(I, "values are finite")

    def ensures(self, F, res):
        t, l = F.args[0], F.args[-1].term
        n = z3.IntVal(self.places)
        F.I.seed(*[fact(z3.IntVal(i)) for i in range(5)])
        return [("length", R(res.term) == self.length(t, l)), ("named", And(*[l != n for n in NOTHING]))]

    def raises(self, F):
        return [("ValueError", Or(*[F.args[-1].term == n for n in NOTHING]))]

    def on_raise(self, F, exc):
        return [("refused", And(exc == "ValueError", Or(*[F.old[-1].term == n for n in NOTHING])))]


class VertexSingleton(_Single):
    target = f"{MOD}::encode_vertex_singleton"


class EdgeSingleton(_Single):
    target = f"{MOD}::encode_edge_singleton"
    which, nodes, places = "_edgeLC", 2, 4


class Singleton(Contract):
    """arity 1: a vertex, 2: an edge, anything else is refused"""
    target = f"{MOD}::encode_singleton"
    may_raise = frozenset({"ValueError"})

    def make_args(self, I):
        return [table(I), I.fresh_val("arity", INT), I.fresh_val("label", OBJ)]

    def requires(self, F):
        t, a, l = F.args[0], F.args[1].term, F.args[2].term
        return [("label-known", Or(*[l == n for n in NOTHING], *[And(a == i, Select(t.attrs[m].dom, l)) for i, m in ((1, "_vertexLC"), (2, "_edgeLC"))], a < 1, a > 2)),
                ("finite", And(*[theory.card_fn(OBJ)(t.attrs[m].dom) >= 0 for m in ("_vertexLC", "_edgeLC")]))]

    def fresh_result(self, I, F):
        return I.fresh_val("length", REAL)

    def ensures(self, F, res):
        t, a, l = F.args[0], F.args[1].term, F.args[2].term
        return [("vertex", Implies(a == 1, R(res.term) == VertexSingleton().length(t, l))), ("edge", Implies(a == 2, R(res.term) == EdgeSingleton().length(t, l))),
                ("arity", Or(a == 1, a == 2))]

    def bad(self, F):
        a, l = F.old[1].term, F.old[2].term
        return Or(And(a != 1, a != 2), *[l == n for n in NOTHING])

    def raises(self, F):
        return [("ValueError", self.bad(F))]

    def on_raise(self, F, exc):
        return [("refused", And(exc == "ValueError", self.bad(F)))]


class Log2Of(Contract):
    """- log2(value / total)"""
    target = f"{MOD}::log2"

    def make_args(self, I):
        return [I.fresh_val("value", REAL), I.fresh_val("total", REAL)]

    def requires(self, F):
        return [("positive", And(R(F.args[0].term) > 0, R(F.args[1].term) > 0))]

    def fresh_result(self, I, F):
        return I.fresh_val("code", REAL)

    def ensures(self, F, res):
        v, t = R(F.args[0].term), R(F.args[1].term)
        return [("code", res.term == -log2(v / t))]


class Prequential(Contract):
    """each symbol costs -log2((epsilon + times it was seen) / (epsilon * symbols + all seen))"""
    target = f"{MOD}::prequential_code"
    defaults = {"epsilon": 0.5}

    def make_args(self, I):
        return [I.fresh_val("seq", SeqT(INT)), I.fresh_val("epsilon", REAL)]

    def requires(self, F):
        j = ints(1)
        s = F.args[0]
        return [("counts", FA(j, Implies(rng(j, 0, s.n), Select(s.arr, j) >= 0), [Select(s.arr, j)])), ("epsilon", F.args[1].term > 0)]

    def fresh_result(self, I, F):
        return I.fresh_val("code", REAL)

    def spec(self, I):
        """PRE(eps, total, v): code of v times the same symbol when total is the weight before; SUM: of the first m symbols"""
        PRE, SUM = z3.Function("prequential", RS, RS, IS, RS), z3.Function("prequential_sum", z3.ArraySort(IS, IS), RS, IS, IS, RS)
        if "prequential" not in theory.REG:
            e, t, v, m, n = bv(RS), bv(RS), *ints(3)
            a = bv(z3.ArraySort(IS, IS))
            theory.REG["prequential"] = [FA([e, t], PRE(e, t, 0) == 0, [PRE(e, t, 0)]),
                                         FA([e, t, v], Implies(v >= 0, PRE(e, t, v + 1) == PRE(e, t, v) - log2((e + R(v)) / (t + R(v)))), [PRE(e, t, v + 1)])]
            theory.REG["prequential_sum"] = [FA([a, e, n], SUM(a, e, n, 0) == 0, [SUM(a, e, n, 0)]),
                FA([a, e, n, m], Implies(m >= 0, SUM(a, e, n, m + 1) == SUM(a, e, n, m) + PRE(e, e * R(n) + R(psum(a, m)), Select(a, m))), [SUM(a, e, n, m + 1)])]
        return PRE, SUM

    def ensures(self, F, res):
        PRE, SUM = self.spec(F.I)
        s, e = F.old[0], F.old[1].term
        return [("code", R(res.term) == SUM(s.arr, e, s.n, s.n))]

    def loop_spec(self, Lc, ordn, depth):
        F = Lc.I.F
        s, e = F.old[0], F.old[1].term
        PRE, SUM = self.spec(F.I)
        env = Lc.I.env
        start = {n: v.term for n, v in env.items() if isinstance(v, Sc) and v.ty in (INT, REAL)}

        def outer(Lc, i):
            v = lambda n: R(Lc.I.env[n].term)
            return [("code", v("code") == SUM(s.arr, e, s.n, i)), ("total", v("total_epsilon") == e * R(s.n) + R(psum(s.arr, i))),
                    ("eps", v("eps") == e), ("weight", psum(s.arr, i) >= 0)]

        def inner(Lc, i):
            v = lambda n: R(Lc.I.env[n].term)
            c0, t0 = R(start["code"]), R(start["total_epsilon"])
            return [("code", v("code") == c0 + PRE(e, t0, i)), ("total", v("total_epsilon") == t0 + R(i)), ("eps", v("eps") == e + R(i))]
        return LoopSpec(inner if depth or ordn else outer)


MSUM = z3.Function("sum_of_values", z3.ArraySort(OBJ.sort(), z3.BoolSort()), z3.ArraySort(OBJ.sort(), RS), RS)


class PortCodes(Contract):
    """a used pattern costs -log2(its usage / all usages), a used port -log2(its usage / usages of the ports), an unused one 0"""
    target = "skmine/graph/graphmdl/code_table_row.py::CodeTableRow.compute_code_length"
    modifies = ((0, "_code_length"), (0, "_port_code_length"))

    def make_args(self, I):
        me = RecV("skmine/graph/graphmdl/code_table_row.py::CodeTableRow", {
            "_pattern_usage": I.fresh_val("usage", INT), "_pattern_port_usage": I.fresh_val("ports", MapT(OBJ, REAL)),
            "_code_length": I.fresh_val("code", REAL), "_port_code_length": NONE})
        return [me, I.fresh_val("total", REAL)]

    def requires(self, F):
        me = F.args[0].attrs
        p = bv(OBJ, "p")
        m = me["_pattern_port_usage"]
        return [("counts", FA(p, Implies(Select(m.dom, p), Select(m.arr, p) >= 0), [Select(m.arr, p)])), ("usage", me["_pattern_usage"].term >= 0),
                ("total", R(F.args[1].term) >= R(me["_pattern_usage"].term))]

    def ensures(self, F, res):
        me, was = F.args[0].attrs, F.old[0].attrs
        m, u, S = was["_pattern_port_usage"], R(was["_pattern_usage"].term), F.g.get("sum")
        c = me["_port_code_length"]
        if not isinstance(c, MapV) or S is None:
            return [("form", F_)]
        p = bv(OBJ, "p")
        now = me["_pattern_port_usage"]
        return [("row", R(me["_code_length"].term) == If(u == 0, z3.RealVal(0), -log2(u / R(F.old[1].term)))),
                ("ports", FA(p, Select(c.dom, p) == Select(m.dom, p))),
                ("codes", FA(p, Implies(Select(m.dom, p), Select(c.arr, p) == If(Select(m.arr, p) == 0, z3.RealVal(0), -log2(Select(m.arr, p) / S))), [Select(c.arr, p)])),
                ("usages-unchanged", And(now.dom == m.dom, now.arr == m.arr, me["_pattern_usage"].term == was["_pattern_usage"].term))]

    def loop_spec(self, Lc, ordn, depth):
        I, F = Lc.I, Lc.I.F
        me = F.args[0].attrs
        m = F.old[0].attrs["_pattern_port_usage"]
        n, get = Lc.n, Lc.get
        if depth or n is None:
            return None
        key = lambda j: get(j).items[0].term if isinstance(get(j), TupV) else get(j).term
        L.used(I, "the sum of the values of a dictionary does not depend on the order of its keys")
        if get(ints(1)).ty == OBJ or isinstance(get(ints(1)), TupV):
            vals = defarr(I, lambda j: Select(m.arr, key(j)))
        else:
            return None
        S = MSUM(m.dom, m.arr)
        F.g["sum"] = S
        j, p = ints(1), bv(OBJ, "p")
        mono = FA(j, Implies(rng(j, 0, n), Select(vals, j) <= psum(vals, n)))
        sums = [k for k in I.roots_modified(Lc.node.body)[0] if isinstance(I.env.get(k), Sc)]
        c = me["_port_code_length"]
        fills = any(p == ("_port_code_length",) or "_port_code_length" in str(p) for r, p in I.roots_modified(Lc.node.body)[1])
        pos = I.last_enum[2]
        I.pc.append(psum(vals, n) == S)

        def inv(Lc, i):
            I = Lc.I
            out = []
            if sums and not fills:
                out.append(("sum", R(I.env[sums[0]].term) == psum(vals, i)))
                out.append(("bound", FA(p, Implies(And(Select(m.dom, p), pos(p) < i), Select(m.arr, p) <= psum(vals, i)), [Select(m.arr, p)])))
                out.append(("positive", psum(vals, i) >= 0))
                return out
            c = I.F.args[0].attrs["_port_code_length"]
            if not isinstance(c, MapV):
                return [("form", F_)]
            c = as_type(c, MapT(OBJ, REAL))
            out.append(("ports", FA(p, Select(c.dom, p) == And(Select(m.dom, p), pos(p) < i), [Select(c.dom, p)])))
            out.append(("codes", FA(p, Implies(Select(c.dom, p), Select(c.arr, p) == If(Select(m.arr, p) == 0, z3.RealVal(0), -log2(Select(m.arr, p) / S))), [Select(c.arr, p)])))
            return out
        return LoopSpec(inv)


COUNTS = {k: (z3.Function(f"labels_of_{k}", OBJ.sort(), z3.ArraySort(OBJ.sort(), z3.BoolSort())),
              z3.Function(f"count_of_{k}", OBJ.sort(), z3.ArraySort(OBJ.sort(), IS))) for k in ("vertices", "edges")}
NODES = z3.Function("number_of_nodes", OBJ.sort(), IS)


class _Count(Contract):
    """how often each label occurs, at least once each (a function of the graph)"""
    trusted = True
    of = "vertices"

    def fresh_result(self, I, F):
        d, c = COUNTS[self.of]
        g = F.args[0].term
        return MapV(OBJ, INT, d(g), c(g))

    def ensures(self, F, res):
        l = bv(OBJ, "l")
        return [("counted", FA(l, Implies(Select(res.dom, l), Select(res.arr, l) >= 1), [Select(res.arr, l)])), ("finite", theory.card_fn(OBJ)(res.dom) >= 0)]


class CountVertices(_Count):
    target = f"{MOD}::count_vertex_label"


class CountEdges(_Count):
    target = f"{MOD}::count_edge_label"
    of = "edges"


def _nodes(I, s, a, k, line):
    if isinstance(s, Sc) and s.ty == OBJ and not a and not k:
        L.used(I, "networkx Graph.nodes(): as many as the graph has nodes")
        v = I.fresh_val("nodes", SeqT(OBJ))
        I.assume(v.n == NODES(s.term))
        I.assume(v.n >= 0)
        return v


class Encode(Contract):
    """log2(number of labels) + code(nodes + 1) + for each label: its code + code(count + 1) + log2(ways to place it)"""
    target = f"{MOD}::encode"
    world_methods = {("Sc", "nodes"): _nodes}

    def make_args(self, I):
        return [I.fresh_val("pattern", OBJ), table(I)]

    def requires(self, F):
        g, t = F.args[0].term, F.args[1].attrs
        l = bv(OBJ, "l")
        out = [("finite", And(*[theory.card_fn(OBJ)(t[m].dom) >= 0 for m in ("_vertexLC", "_edgeLC")])), ("some-label", labels(F.args[1]) > 0), ("size", NODES(g) >= 0)]
        for of, m, n in (("vertices", "_vertexLC", NODES(g)), ("edges", "_edgeLC", NODES(g) * NODES(g))):
            d, c = COUNTS[of]
            out.append((f"{of}-known", FA(l, Implies(Select(d(g), l), Select(t[m].dom, l)), [Select(d(g), l)])))
            out.append((f"{of}-few", FA(l, Implies(Select(d(g), l), And(Select(c(g), l) <= n, Select(c(g), l) >= 1)), [Select(c(g), l)])))
        return out

    def fresh_result(self, I, F):
        return I.fresh_val("length", REAL)

    def cost(self, F, of):
        """label -> its contribution, as an array"""
        if of not in F.g:
            g, t = F.old[0].term, F.old[1].attrs
            m, n = ("_vertexLC", NODES(g)) if of == "vertices" else ("_edgeLC", NODES(g) * NODES(g))
            d, c = COUNTS[of]
            l = bv(OBJ, "l")
            a = F.I.fresh("cost_" + of, z3.ArraySort(OBJ.sort(), RS))
            F.I.pc.append(FA(l, Select(a, l) == Select(t[m].arr, l) + R(code_int(Select(c(g), l) + 1)) + log2(CH(n, Select(c(g), l))), [Select(a, l)]))
            F.g[of] = (d(g), a)
        return F.g[of]

    def setup(self, I, F):
        F.g.pop("vertices", None), F.g.pop("edges", None)
        for of in ("vertices", "edges"):
            self.cost(F, of)

    def ensures(self, F, res):
        g, t = F.old[0].term, F.old[1]
        return [("length", R(res.term) == log2(R(labels(t))) + R(code_int(NODES(g) + 1)) + sum(MSUM(*self.cost(F, of)) for of in ("vertices", "edges")))]

    def loop_spec(self, Lc, ordn, depth):
        if depth or Lc.n is None:
            return None
        I, F, n, get = Lc.I, Lc.I.F, Lc.n, Lc.get
        e = get(ints(1))
        pos = I.last_enum[2]
        q, l = ints(1), bv(OBJ, "l")
        if isinstance(e, TupV):        # over the labels: which ones?
            of = "vertices" if I.last_enum_map.dom.eq(COUNTS["vertices"][0](F.old[0].term)) else "edges"
            maps = [k for k, p in I.roots_modified(Lc.node.body)[1]]
            F.g.setdefault("filled", {}).update({k: of for k in maps})

            def inv(Lc, i):
                d, a = self.cost(F, of)
                out = []
                for k in maps:
                    m = as_type(Lc.I.env[k], MapT(OBJ, REAL))
                    out += [(k + ".labels", FA(l, Select(m.dom, l) == And(Select(d, l), pos(l) < i), [Select(m.dom, l)])),
                            (k + ".cost", FA(l, Implies(Select(m.dom, l), Select(m.arr, l) == Select(a, l)), [Select(m.arr, l)]))]
                return out
            return LoopSpec(inv)
        L.used(I, "the sum of the values of a dictionary does not depend on the order of its keys")
        vals = defarr(I, lambda j: R(get(j).term))
        m = I.last_enum_map
        I.pc.append(psum(vals, n) == MSUM(m.dom, m.arr))
        of = next((F.g["filled"][k] for k in F.g.get("filled", {}) if I.env.get(k) is m), None)
        if of is None:
            return None
        d, a = self.cost(F, of)
        same = [FA(l, Select(m.dom, l) == Select(d, l)), FA(l, Implies(Select(d, l), Select(m.arr, l) == Select(a, l)))]
        I.prove(f"{of}.labels", same[0])
        I.prove(f"{of}.costs", same[1])
        I.pc.append(MSUM(m.dom, m.arr) == MSUM(d, a))
        sums = [k for k in I.roots_modified(Lc.node.body)[0] if isinstance(I.env.get(k), Sc) and I.env[k].ty == REAL]
        start = {k: R(I.env[k].term) for k in sums}
        return LoopSpec(lambda Lc, i: [("sum." + k, R(Lc.I.env[k].term) == start[k] + psum(vals, i)) for k in sums])
