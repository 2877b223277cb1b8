"""pattern trees (skmine/periodic/pattern.py)

A tree is a dictionary of nodes: an inner node has children (each with its distance to the previous one), a number of repetitions
and a period, a leaf has an event. What a tree denotes is defined by recursion on the node (children are lower in the tree)."""
from pyvc.contract import *
from pyvc.spec import *
from pyvc import lib as L, theory

MOD = "skmine/periodic/pattern.py"
ME = f"{MOD}::Pattern"
IS, OS = z3.IntSort(), OBJ.sort()
CHILD = TupT(INT, INT)
CHILDREN = SeqT(CHILD)
inner = z3.Function("node_is_inner", OS, z3.BoolSort())
kids = z3.Function("node_children", OS, CHILDREN.sort())
rep, per = z3.Function("node_r", OS, IS), z3.Function("node_p", OS, IS)
event = z3.Function("node_event", OS, OS)
rank = z3.Function("node_height", IS, IS)
klen, karr = CHILDREN.sort().accessor(0, 0), CHILDREN.sort().accessor(0, 1)
cid, cdist = CHILD.sort().accessor(0, 0), CHILD.sort().accessor(0, 1)
FIELDS = {"children": (lambda t: from_term(CHILDREN, kids(t)), True), "r": (lambda t: Sc(INT, rep(t)), True),
          "p": (lambda t: Sc(INT, per(t)), True), "event": (lambda t: Sc(OBJ, event(t)), False)}


def _field(I, base, key, line):
    if isinstance(base, Sc) and base.ty == OBJ and isinstance(key, StrV):
        if key.s not in FIELDS:
            raise Unsupported(f"field {key.s} of a node")
        f, inn = FIELDS[key.s]
        I.safe("KeyError", inner(base.term) if inn else Not(inner(base.term)), line, "KeyError")
        return f(base.term)


def _has(I, x, c, line):
    if isinstance(c, Sc) and c.ty == OBJ and isinstance(x, StrV):
        if x.s not in FIELDS:
            raise Unsupported(f"field {x.s} of a node")
        return inner(c.term) if FIELDS[x.s][1] else Not(inner(c.term))


def child(F, nid, j):
    return cid(Select(karr(kids(Select(F.args[0].attrs["nodes"].arr, nid))), j))


def dist(F, nid, j):
    return cdist(Select(karr(kids(Select(F.args[0].attrs["nodes"].arr, nid))), j))


class _Tree(Contract):
    getitem_hooks = [_field]
    contains_hooks = [_has]
    before = 0        # parameters between self and nid
    defaults = {"nid": 0}

    def more_args(self, I):
        return []

    def make_args(self, I):
        return [RecV(ME, {"nodes": I.fresh_val("nodes", MapT(INT, OBJ))})] + self.more_args(I) + [I.fresh_val("nid", INT)]

    def nid(self, F):
        return F.args[1 + self.before].term

    def node(self, F, nid):
        return Select(F.args[0].attrs["nodes"].arr, nid)

    def isnode(self, F, nid):
        return Select(F.args[0].attrs["nodes"].dom, nid)

    def nk(self, F, nid):
        return klen(kids(self.node(F, nid)))

    def requires(self, F):
        n, j = ints(2)
        c = child(F, n, j)
        here = And(self.isnode(F, n), inner(self.node(F, n)))
        out = [("tree", FA([n, j], Implies(And(here, rng(j, 0, self.nk(F, n))), And(self.isnode(F, c), 0 <= rank(c), rank(c) < rank(n))),
                           [Select(karr(kids(self.node(F, n))), j)])),
               ("some-children", FA(n, Implies(here, And(self.nk(F, n) >= 1, rep(self.node(F, n)) >= 0)), [inner(self.node(F, n))]))]
        if getattr(F, "caller", False):     # what is denoted is defined for the tree of the caller
            a, b = F.args[0].attrs["nodes"], F.I.F.old[0].attrs["nodes"]
            out = [("same-tree", And(a.dom == b.dom, a.arr == b.arr))]
            if type(F.I.c) is type(self):
                n = self.nid(F)
                out.append(("terminates", Implies(self.isnode(F, n), And(0 <= rank(n), rank(n) < rank(self.nid(F.I.F))))))
        return out

    def setup(self, I, F):
        I.pc.extend([f for _, f in self.definition(F, self.nid(F))])

    def unchanged(self, F):
        a, b = F.args[0].attrs["nodes"], F.old[0].attrs["nodes"]
        return [("tree-unchanged", And(a.dom == b.dom, a.arr == b.arr))]


class _Count(_Tree):
    """a number of the node is computed from those of its children"""
    ty, none = INT, -1

    @property
    def fn(self):
        return z3.Function(self.fname, IS, self.ty.sort())

    @property
    def of_kids(self):
        return z3.Function(self.fname + "_of_children", IS, z3.ArraySort(IS, self.ty.sort()))

    def definition(self, F, n):
        j = ints(1)
        f, g = self.fn, self.of_kids
        nd = self.node(F, n)
        return [("children", FA(j, Select(g(n), j) == f(child(F, n, j)), [Select(g(n), j)])),
                ("inner", Implies(And(self.isnode(F, n), inner(nd)), self.combine(F, f(n), g(n), n))),
                ("leaf", Implies(And(self.isnode(F, n), Not(inner(nd))), f(n) == self.leaf(F, n)))]

    def extreme(self, F, v, g, n, below):
        j, m = ints(1), self.nk(F, n)
        k = z3.Function("extreme_child", IS, IS)(n)
        return And(FA(j, Implies(rng(j, 0, m), below(self.fn(child(F, n, j)), v)), [Select(karr(kids(self.node(F, n))), j)]),
                   rng(k, 0, m), self.fn(child(F, n, k)) == v)

    def value(self, F):
        n = self.nid(F)
        return If(self.isnode(F, n), self.fn(n), self.sort_none())

    def fresh_result(self, I, F):
        return Sc(self.ty, self.value(F))

    def ensures(self, F, res):
        if getattr(F, "caller", False):
            return []
        return [("value", coerce_term(res, self.ty) == self.value(F))] + self.unchanged(F)

    def sort_none(self):
        return z3.IntVal(self.none) if self.ty == INT else z3.RealVal(self.none)


class NbLeaves(_Count):
    """the number of leaves"""
    target, fname = f"{ME}.getNbLeaves", "nb_leaves"

    def combine(self, F, v, g, n):
        return v == psum(g, self.nk(F, n))

    def leaf(self, F, n):
        return z3.IntVal(1)


class Width(NbLeaves):
    """the number of leaves"""
    target = f"{ME}.getWidth"


class NbOccs(NbLeaves):
    """repetitions times the occurrences of the children"""
    target, fname = f"{ME}.getNbOccs", "nb_occs"

    def combine(self, F, v, g, n):
        return v == rep(self.node(F, n)) * psum(g, self.nk(F, n))


class Depth(_Count):
    """one more than the deepest child, 0 for a leaf"""
    target, fname = f"{ME}.getDepth", "depth_of"

    def combine(self, F, v, g, n):
        return self.extreme(F, v - 1, g, n, lambda a, b: a <= b)

    def leaf(self, F, n):
        return z3.IntVal(0)


class Alphabet(_Tree):
    """the events of the leaves"""
    target = f"{ME}.getAlphabet"
    fn = staticmethod(z3.Function("alphabet", IS, OS, z3.BoolSort()))
    via = staticmethod(z3.Function("child_with_event", IS, OS, IS))

    def definition(self, F, n):
        j, e = ints(1), bv(OBJ)
        f, k = self.fn, self.via(n, e)
        nd = self.node(F, n)
        inn = And(self.isnode(F, n), inner(nd))
        return [("up", FA([j, e], Implies(And(inn, rng(j, 0, self.nk(F, n)), f(child(F, n, j), e)), f(n, e)),
                          [z3.MultiPattern(Select(karr(kids(nd)), j), f(child(F, n, j), e))])),
                ("down", FA(e, Implies(And(inn, f(n, e)), And(rng(k, 0, self.nk(F, n)), f(child(F, n, k), e))), [f(n, e)])),
                ("leaf", FA(e, Implies(And(self.isnode(F, n), Not(inner(nd))), f(n, e) == (e == event(nd))), [f(n, e)]))]

    def fresh_result(self, I, F):
        return I.fresh_val("alphabet", SetT(OBJ))

    def ensures(self, F, res):
        n, e = self.nid(F), bv(OBJ)
        settle(res, SetT(OBJ))
        # Select(res, e) and alphabet(n, e)
        return [("events", FA(e, Select(res.arr, e) == And(self.isnode(F, n), self.fn(n, e)), [Select(res.arr, e)]))] + self.unchanged(F)


class EventLength(_Count):
    """the codes of the events of the leaves, and of an opening and a closing bracket per block"""
    target, fname = f"{ME}.codeLengthEvents", "event_code_length"
    ty, none, before = REAL, 0, 1

    def more_args(self, I):
        return [I.fresh_val("adjFreqs", MapT(OBJ, REAL))]

    def requires(self, F):
        n, m = ints(1), F.args[1]
        out = super().requires(F)
        if getattr(F, "caller", False):
            b = F.I.F.old[1]
            return out + [("same-frequencies", And(m.dom == b.dom, m.arr == b.arr))]
        return out + [("brackets", And(*[And(Select(m.dom, StrV(x).term), Select(m.arr, StrV(x).term) > 0) for x in "()"])),
                      ("known-events", FA(n, Implies(And(self.isnode(F, n), Not(inner(self.node(F, n)))),
                                                     And(Select(m.dom, event(self.node(F, n))), Select(m.arr, event(self.node(F, n))) > 0)), [event(self.node(F, n))]))]

    def combine(self, F, v, g, n):
        m = F.args[1]
        return v == psum(g, self.nk(F, n)) - log2(Select(m.arr, StrV("(").term)) - log2(Select(m.arr, StrV(")").term))

    def leaf(self, F, n):
        return -log2(Select(F.args[1].arr, event(self.node(F, n))))


class CardO(NbOccs):
    """repetitions times the occurrences of the children"""
    target, none = f"{ME}.cardO", 0


class _OwnField(_Tree):
    def definition(self, F, n):
        return []

    def fresh_result(self, I, F):
        return I.fresh_val("value", INT)

    def ensures(self, F, res):
        n = self.nid(F)
        return [("value", res.term == If(And(self.isnode(F, n), inner(self.node(F, n))), self.field(self.node(F, n)), 0))] + self.unchanged(F)


class NodeP(_OwnField):
    """the period of a block, 0 for what is no block"""
    target, field = f"{ME}.nodeP", staticmethod(per)


class NodeR(_OwnField):
    """the repetitions of a block, 0 for what is no block"""
    target, field = f"{ME}.nodeR", staticmethod(rep)


class _Shape(_Tree):
    def definition(self, F, n):
        return []

    def fresh_result(self, I, F):
        return I.fresh_val("value", BOOL)

    def ensures(self, F, res):
        n = self.nid(F)
        d, w = [If(self.isnode(F, n), c().fn(n), -1) for c in (Depth, Width)]
        return [("value", res.term == self.rule(d, w))] + self.unchanged(F)


class IsSimple(_Shape):
    """depth 1 and a single leaf"""
    target, rule = f"{ME}.isSimpleCycle", staticmethod(lambda d, w: And(d == 1, w == 1))


class IsNested(_Shape):
    """deeper, with a single leaf"""
    target, rule = f"{ME}.isNested", staticmethod(lambda d, w: And(d > 1, w == 1))


class IsConcat(_Shape):
    """depth 1 and several leaves"""
    target, rule = f"{ME}.isConcat", staticmethod(lambda d, w: And(d == 1, w > 1))


class _List(_Tree):
    """a list of the node is made of those of its children"""
    ety, head = INT, 1
    none = -1

    @property
    def ln(self):
        return z3.Function(self.fname + "_len", IS, IS)

    @property
    def lnk(self):
        return z3.Function(self.fname + "_lens", IS, z3.ArraySort(IS, IS))

    @property
    def el(self):
        return z3.Function(self.fname, IS, IS, self.ety.sort())

    def body(self, F, n):
        """the part made of the children, repeated reps times: length, and its element q"""
        j, m = ints(2)
        nd, c = self.node(F, n), child(F, n, j)
        inn = And(self.isnode(F, n), inner(nd))
        return [("lens", FA(j, Select(self.lnk(n), j) == self.ln(c), [Select(self.lnk(n), j)])),
                ("len", Implies(inn, self.ln(n) == self.head + psum(self.lnk(n), self.nk(F, n)))),
                ("place", FA([j, m], Implies(And(inn, rng(j, 0, self.nk(F, n)), rng(m, 0, self.ln(c))),
                                             self.el(n, self.head + psum(self.lnk(n), j) + m) == self.el(c, m)),
                             [z3.MultiPattern(Select(karr(kids(nd)), j), self.el(c, m))]))]

    def definition(self, F, n):
        nd = self.node(F, n)
        out = self.body(F, n)
        for i, t in enumerate(self.first(F, n)):
            out.append(("head", Implies(inner(nd), self.el(n, z3.IntVal(i)) == t)))
        lf = self.leaf(F, n)
        return out + [("leaf", Implies(And(self.isnode(F, n), Not(inner(nd))), And(
            self.ln(n) == len(lf), *[self.el(n, z3.IntVal(i)) == t for i, t in enumerate(lf)])))]

    def requires(self, F):
        if getattr(F, "caller", False):
            return super().requires(F) + [("node", self.isnode(F, self.nid(F)))]
        return super().requires(F)

    def first(self, F, n):
        return []

    def leaf(self, F, n):
        return []

    def fresh_result(self, I, F):
        return I.fresh_val("list", SeqT(self.ety))

    def ensures(self, F, res):
        n, q = self.nid(F), ints(1)
        if not isinstance(res, SeqV) and not (isinstance(res, TupV) and res.kind == "list"):
            return [("none", And(Not(self.isnode(F, n)), coerce_term(res, INT) == self.none if isinstance(res, Sc) else F_))]
        if isinstance(res, TupV):
            res = tup_to_seq(res)
        settle(res, SeqT(self.ety))
        return [("length", res.n == self.ln(n)), ("elements", FA(q, Implies(rng(q, 0, res.n), Select(res.arr, q) == self.el(n, q)), [Select(res.arr, q)])),
                ("node", self.isnode(F, n))] + self.unchanged(F)

    def loop_spec(self, Lc, ordn, depth):
        I, F = Lc.I, Lc.I.F
        if depth:
            return None
        n = self.nid(F)
        lists = [k for k in sorted({r for r, _ in I.roots_modified(Lc.node.body)[1]}) if isinstance(I.env.get(k), (SeqV, TupV))]

        def inv(Lc, i):
            out, q = [], ints(1)
            for k in lists:
                l = settled(Lc.I.env[k], SeqT(self.ety))
                out.append((k + ".length", l.n == self.head + psum(self.lnk(n), i)))
                out.append((k + ".elements", FA(q, Implies(rng(q, 0, l.n), Select(l.arr, q) == self.el(n, q)), [Select(l.arr, q)])))
            return out
        return LoopSpec(inv)


class CyclePs(_List):
    """the periods of all blocks, top down"""
    target, fname = f"{ME}.getCyclePs", "periods"

    def first(self, F, n):
        return [per(self.node(F, n))]


class CycleRs(_List):
    """the repetitions of all blocks, top down"""
    target, fname = f"{ME}.getCycleRs", "repetitions"

    def first(self, F, n):
        return [rep(self.node(F, n))]


class RVals(CycleRs):
    target = f"{ME}.getRVals"


PAIR = TupT(INT, INT)
PREF = SeqT(PAIR)
PARR = z3.ArraySort(IS, PAIR.sort())
pos1, pos2 = PAIR.sort().accessor(0, 0), PAIR.sort().accessor(0, 1)
KEY = theory.seqfn("key_of", PAIR.sort(), OS)


def _l_to_key(I, a, k, line):
    if len(a) == 1 and not k:
        v = a[0]
        if isinstance(v, TupV):
            v = tup_to_seq(v) if v.items else SeqV(PAIR, z3.IntVal(0), z3.Const("nothing", PARR))
        if isinstance(v, SeqV):
            settle(v, PREF)
            L.used(I, "class_patterns.l_to_key: the text is a function of the list of pairs (its form is checked within bounds)")
            return Sc(OBJ, KEY(v.arr, v.n))
    raise Unsupported("l_to_key")


class OccsStar(_Tree):
    """the tree unrolled, in order: repetition i of child j starts i periods and the distances up to j later, and the position of
    an occurrence is the path that leads to it"""
    target = f"{ME}.getOccsStar"
    world_extra = {"skmine/periodic/class_patterns.py::l_to_key": _l_to_key}
    defaults = {"nid": 0, "pref": [], "time": 0}
    label = staticmethod(lambda F, self, n: event(self.node(F, n)))
    lty = OBJ
    key = staticmethod(lambda F, s, n: KEY(s, n))
    LN = staticmethod(z3.Function("nb_occs", IS, IS))
    lens = staticmethod(z3.Function("nb_occs_of_children", IS, z3.ArraySort(IS, IS)))
    dists = staticmethod(z3.Function("distances", IS, z3.ArraySort(IS, IS)))
    TIME = staticmethod(z3.Function("occ_time", IS, IS, IS))
    PL = staticmethod(z3.Function("occ_path_len", IS, IS, IS))
    PATH = staticmethod(z3.Function("occ_path", IS, IS, PARR))
    VIA, TURN = staticmethod(z3.Function("occ_child", IS, IS, IS)), staticmethod(z3.Function("occ_repetition", IS, IS, IS))
    FULL = staticmethod(z3.Function("full_path", PARR, IS, IS, IS, PARR))

    @property
    def LAB(self):
        return z3.Function("occ_label_" + self.lty.name, IS, IS, self.lty.sort())

    def make_args(self, I):
        return [RecV(ME, {"nodes": I.fresh_val("nodes", MapT(INT, OBJ))}), I.fresh_val("nid", INT), I.fresh_val("pref", PREF), I.fresh_val("time", INT)]

    def adapt_args(self, I, vals):
        out = list(vals)
        if isinstance(out[2], TupV):
            out[2] = tup_to_seq(out[2]) if out[2].items else SeqV(PAIR, z3.IntVal(0), z3.Const("nothing", PARR))
        if isinstance(out[2], SeqV) and out[2].ety is None:
            out[2] = SeqV(PAIR, z3.IntVal(0), z3.Const("nothing", PARR))
        settle(out[2], PREF)
        return out

    @property
    def OTY(self):
        return TupT(INT, self.lty, OBJ)

    def blk(self, F, n):
        return psum(self.lens(n), self.nk(F, n))

    def start(self, F, n, i):
        return psum(z3.K(IS, self.blk(F, n)), i)

    def definition(self, F, n):
        i, j, m, b = ints(4)
        nd, c = self.node(F, n), child(F, n, j)
        inn = And(self.isnode(F, n), inner(nd))
        q = self.start(F, n, i) + psum(self.lens(n), j) + m
        a = ints(1)
        pa, pn, nn, qq = bv(PARR), ints(1), ints(1), ints(1)
        here = And(inn, rng(i, 0, rep(nd)), rng(j, 0, self.nk(F, n)), rng(m, 0, self.LN(c)))
        pat = [z3.MultiPattern(theory.mark(i, "rep"), Select(karr(kids(nd)), j), self.TIME(c, m))]
        return [("lens", FA(j, Select(self.lens(n), j) == self.LN(c), [Select(self.lens(n), j)])),
                ("dists", FA(j, Select(self.dists(n), j) == dist(F, n, j), [Select(self.dists(n), j)])),
                ("len", Implies(inn, self.LN(n) == rep(nd) * self.blk(F, n))),
                ("time", FA([i, j, m], Implies(here, self.TIME(n, q) == i * per(nd) + psum(self.dists(n), j + 1) + self.TIME(c, m)), pat)),
                ("label", FA([i, j, m], Implies(here, self.LAB(n, q) == self.LAB(c, m)), pat)),
                ("path-length", FA([i, j, m], Implies(here, And(self.PL(c, m) >= 0, self.PL(n, q) == 1 + self.PL(c, m))), pat)),
                ("path-start", FA([i, j, m], Implies(here, And(self.VIA(n, q) == j, self.TURN(n, q) == i)), pat)),
                ("first-step", FA(b, Select(self.PATH(n, b), z3.IntVal(0)) == PAIR.sort().constructor(0)(self.VIA(n, b), self.TURN(n, b)),
                                  [self.VIA(n, b)])),
                ("path", FA([i, j, m, b], Implies(And(here, rng(b, 0, self.PL(c, m))), Select(self.PATH(n, q), b + 1) == Select(self.PATH(c, m), b)),
                            [z3.MultiPattern(theory.mark(i, "rep"), Select(karr(kids(nd)), j), Select(self.PATH(c, m), b))])),
                ("leaf", Implies(And(self.isnode(F, n), Not(inner(nd))), And(self.LN(n) == 1, self.TIME(n, z3.IntVal(0)) == 0, self.PL(n, z3.IntVal(0)) == 0,
                                                                            self.LAB(n, z3.IntVal(0)) == self.label(F, self, n)))),
                ("full", FA([pa, pn, nn, qq, a], Select(self.FULL(pa, pn, nn, qq), a) == If(a < pn, Select(pa, pn - 1 - a), Select(self.PATH(nn, qq), a - pn)),
                            [Select(self.FULL(pa, pn, nn, qq), a)]))]

    def setup(self, I, F):
        super().setup(I, F)
        # r blocks of the same length, by induction
        n, k, x = self.nid(F), I.fresh("k", IS), I.fresh("block", IS)
        keep, I.pc = I.pc, []
        arr = z3.K(IS, x)
        I.prove("lemma.equal-blocks.start", psum(arr, z3.IntVal(0)) == 0, 0)
        I.prove("lemma.equal-blocks.step", Implies(And(k >= 0, psum(arr, k) == k * x), psum(arr, k + 1) == (k + 1) * x), 0)
        I.pc = keep
        r = rep(self.node(F, n))
        I.pc.append(Implies(r >= 0, self.start(F, n, r) == r * self.blk(F, n)))

    def requires(self, F):
        out = super().requires(F)
        if getattr(F, "caller", False):
            return out + [("node", self.isnode(F, self.nid(F)))]
        return out

    def fresh_result(self, I, F):
        return I.fresh_val("occs", SeqT(self.OTY))

    def after_call(self, I, c, F, res):
        """the path of an occurrence of a child, seen from here"""
        if type(c) is not type(self) or "kid" not in I.F.g:
            return
        n, i, j = self.nid(I.F), I.F.g["rep"].i, I.F.g["kid"].i
        p, p2 = I.F.old[2], F.args[2]
        k, m, a = self.nid(F), I.fresh("m", IS), I.fresh("a", IS)
        q = self.start(I.F, n, i) + psum(self.lens(n), j) + m
        hyp = rng(m, 0, self.LN(k))
        len1, len2 = p2.n + self.PL(k, m), p.n + self.PL(n, q)
        A, B = self.FULL(p2.arr, p2.n, k, m), self.FULL(p.arr, p.n, n, q)
        I.seed(self.TIME(k, m), Select(karr(kids(self.node(I.F, n))), j))
        I.prove("lemma.path-length", Implies(hyp, len1 == len2), kind="lemma")
        I.seed(Select(self.PATH(k, m), a - p.n - 1), Select(p2.arr, p2.n - 1 - a), Select(p.arr, p.n - 1 - a), Select(p2.arr, z3.IntVal(0)))
        I.prove("lemma.same-path.above", Implies(And(hyp, 0 <= a, a < p.n), Select(A, a) == Select(B, a)), kind="lemma")
        I.prove("lemma.via", Implies(hyp, self.VIA(n, q) == j), kind="lemma")
        I.prove("lemma.turn", Implies(hyp, self.TURN(n, q) == i), kind="lemma")
        I.seed(Select(self.PATH(n, q), z3.IntVal(0)))
        I.prove("lemma.this-step", Select(p2.arr, z3.IntVal(0)) == PAIR.sort().constructor(0)(j, i), kind="lemma")
        zero = z3.IntVal(0)
        steps = [Select(A, p.n) == Select(p2.arr, p2.n - 1 - p.n), p2.n - 1 - p.n == 0, Select(B, p.n) == Select(self.PATH(n, q), p.n - p.n),
                 Select(p2.arr, zero) == PAIR.sort().constructor(0)(j, i), Implies(hyp, And(self.VIA(n, q) == j, self.TURN(n, q) == i)),
                 Select(self.PATH(n, q), zero) == PAIR.sort().constructor(0)(self.VIA(n, q), self.TURN(n, q))]
        for x, f in enumerate(steps):
            I.prove(f"lemma.here.{x}", f, kind="lemma")
        keep, I.pc = I.pc, steps
        I.prove("lemma.same-path.here", Implies(hyp, Select(A, p.n) == Select(B, p.n)), kind="lemma")
        I.pc = keep
        I.prove("lemma.same-path.below", Implies(And(hyp, p.n < a, a < len1), Select(A, a) == Select(B, a)), kind="lemma")
        a2 = ints(1)
        keep = I.pc
        I.pc = [Implies(hyp, len1 == len2), Implies(hyp, FA(a2, Implies(rng(a2, 0, len1), Select(A, a2) == Select(B, a2)), [Select(A, a2)]))]
        I.seed(KEY(A, len1), KEY(B, len1))
        I.prove("lemma.same-position", Implies(hyp, KEY(A, len1) == KEY(B, len2)), kind="lemma")
        m2 = ints(1)
        sub = lambda t: z3.substitute(t, (m, m2))
        I.pc = keep + [FA(m2, sub(Implies(hyp, KEY(A, len1) == KEY(B, len2))), [sub(KEY(A, len1))])]
        # an occurrence reached by another child or repetition has another position: its path differs in its first step
        q1 = I.fresh("q", IS)
        other = And(Or(self.VIA(n, q1) != j, self.TURN(n, q1) != i), self.PL(n, q1) >= 1)
        A, lenA = self.FULL(p.arr, p.n, n, q1), p.n + self.PL(n, q1)
        keep = I.pc
        L.used(I, "class_patterns.l_to_key: different lists of pairs have different texts")
        steps = steps[2:] + [Select(A, p.n) == Select(self.PATH(n, q1), p.n - p.n), p.n >= 0,
                             Select(self.PATH(n, q1), zero) == PAIR.sort().constructor(0)(self.VIA(n, q1), self.TURN(n, q1))]
        for x, f in enumerate(steps[4:]):
            I.prove(f"lemma.other.{x}", f, kind="lemma")
        I.pc = steps + [Implies(KEY(A, lenA) == KEY(B, len2), And(lenA == len2, Implies(rng(p.n, 0, lenA), Select(A, p.n) == Select(B, p.n))))]
        g = Implies(And(hyp, other), KEY(A, lenA) != KEY(B, len2))
        I.prove("lemma.other-position", g, kind="lemma")
        q3 = ints(1)
        sub = lambda t: z3.substitute(t, (m, m2), (q1, q3))
        I.pc = keep + [FA([q3, m2], sub(g), [z3.MultiPattern(sub(KEY(A, lenA)), sub(KEY(*[self.FULL(p2.arr, p2.n, k, m), len1])))])]

    def is_occ(self, F, t, q):
        s, n = self.OTY.sort(), self.nid(F)
        pref, time = F.old[2], F.old[3].term
        return [("time", s.accessor(0, 0)(t) == time + self.TIME(n, q)), ("label", s.accessor(0, 1)(t) == self.LAB(n, q)),
                ("position", s.accessor(0, 2)(t) == KEY(self.FULL(pref.arr, pref.n, n, q), pref.n + self.PL(n, q)))]

    def occs(self, F, l):
        q = ints(1)
        a, b = ints(2)
        key = self.OTY.sort().accessor(0, 2)
        return [(nm, FA(q, Implies(rng(q, 0, l.n), f), [Select(l.arr, q)])) for nm, f in self.is_occ(F, Select(l.arr, q), q)] + \
            [("positions-unique", FA([a, b], Implies(And(0 <= a, a < b, b < l.n), key(Select(l.arr, a)) != key(Select(l.arr, b))),
                                     [z3.MultiPattern(Select(l.arr, a), Select(l.arr, b))]))]

    def earlier(self, F, l, i, j):
        """the occurrences so far are those of earlier repetitions, or of earlier children"""
        q, n = ints(1), self.nid(F)
        v, t = self.VIA(n, q), self.TURN(n, q)
        return [("earlier", FA(q, Implies(rng(q, 0, l.n), And(theory.mark(Select(l.arr, q)), self.PL(n, q) >= 1, Or(t < i, And(t == i, v < j)))), [Select(l.arr, q)]))]

    def ensures(self, F, res):
        n = self.nid(F)
        if isinstance(res, TupV):
            res = tup_to_seq(res) if res.items else SeqV(self.OTY, z3.IntVal(0), z3.K(IS, z3.Const("any_occ", self.OTY.sort())))
        settle(res, SeqT(self.OTY))
        return [("number", res.n == If(self.isnode(F, n), self.LN(n), 0))] + self.occs(F, res) + self.unchanged(F)

    def loop_spec(self, Lc, ordn, depth):
        I, F, n = Lc.I, Lc.I.F, self.nid(Lc.I.F)
        nd = self.node(F, n)
        names = [k for k in sorted({r for r, _ in I.roots_modified(Lc.node.body)[1]}) if isinstance(I.env.get(k), (SeqV, TupV))]
        over_children = Lc.n is not None and z3.simplify(Lc.n == self.nk(F, n)).eq(T)
        if not over_children:
            F.g["rep"] = Lc

            def inv(Lc, i):
                out = []
                for k in names:
                    l = settled(Lc.I.env[k], SeqT(self.OTY))
                    out += [("number", l.n == self.start(F, n, i))] + self.occs(F, l) + self.earlier(F, l, i, 0)
                return out
            return LoopSpec(inv, at_body=lambda Lc, i: [theory.mark(i, "rep")])
        outer = F.g.get("rep")
        sums = [k for k in sorted(I.roots_modified(Lc.node.body)[0]) if isinstance(I.env.get(k), Sc) and I.env[k].ty == INT]
        begin = {k: I.env[k].term for k in sums}
        if outer is None:
            return None
        ri, F.g["kid"] = outer.i, Lc

        def inv(Lc, j):
            out = []
            for k in names:
                l = settled(Lc.I.env[k], SeqT(self.OTY))
                out += [("number", l.n == self.start(F, n, ri) + psum(self.lens(n), j))] + self.occs(F, l) + self.earlier(F, l, ri, j)
            return out + [("sum." + k, Lc.I.env[k].term == begin[k] + psum(self.dists(n), j)) for k in sums]
        return LoopSpec(inv)


class TimesNidsRefs(OccsStar):
    """the tree unrolled, with the node of each occurrence in place of its event"""
    target = f"{ME}.getTimesNidsRefs"
    label = staticmethod(lambda F, self, n: n)
    lty = INT


OCC = TupT(INT, OBJ, OBJ)
okey, otime, olab = [OCC.sort().accessor(0, i) for i in (2, 0, 1)]


class EDict(Contract):
    """the first occurrence has no correction, the others theirs in order; none at all when there are too few of them"""
    target = f"{MOD}::getEDict"
    defaults = {"E": []}

    def make_args(self, I):
        return [I.fresh_val("oStar", SeqT(OCC)), I.fresh_val("E", SeqT(INT))]

    def adapt_args(self, I, vals):
        out = list(vals)
        for i, t in enumerate((SeqT(OCC), SeqT(INT))):
            if isinstance(out[i], TupV):
                out[i] = tup_to_seq(out[i]) if out[i].items else SeqV(None, z3.IntVal(0), None)
            settle(out[i], t)
        return out

    def requires(self, F):
        i, j = ints(2)
        s = F.args[0]
        return [("positions-unique", FA([i, j], Implies(And(rng(i, 0, s.n), rng(j, 0, s.n), okey(Select(s.arr, i)) == okey(Select(s.arr, j))), i == j),
                                        [z3.MultiPattern(Select(s.arr, i), Select(s.arr, j))]))]

    def correction(self, F, q):
        s, e = F.old
        return If(And(q > 0, e.n >= s.n - 1), Select(e.arr, q - 1), 0)

    def fresh_result(self, I, F):
        return I.fresh_val("Ed", MapT(OBJ, INT))

    def ensures(self, F, res):
        q, k = ints(1), bv(OBJ)
        s = F.old[0]
        settle(res, MapT(OBJ, INT))
        w = z3.Function("occurrence_at", OS, IS)
        key = okey(Select(s.arr, q))
        return [("corrections", FA(q, Implies(rng(q, 0, s.n), And(Select(res.dom, key), Select(res.arr, key) == self.correction(F, q))), [Select(s.arr, q)])),
                ("nothing-else", FA(k, Implies(Select(res.dom, k), EX(q, And(rng(q, 0, s.n), okey(Select(s.arr, q)) == k))), [Select(res.dom, k)]))]


KEYS = SeqT(OBJ)
GK = z3.Function("correction_keys", OS, KEYS.sort())
glen, garr = KEYS.sort().accessor(0, 0), KEYS.sort().accessor(0, 1)
EARR = z3.ArraySort(OS, IS)
AT = z3.Function("corrections_at", EARR, OS, z3.ArraySort(IS, IS))


def _gather(I, s, a, k, line):
    L.used(I, "Pattern.gatherCorrKeys: a function of tree and position, whose values are positions of occurrences (checked within bounds)")
    t = GK(a[0].term)
    I.assume(glen(t) >= 0)
    return from_term(KEYS, t)


def corr(arr, k):
    return Select(arr, k) + psum(AT(arr, k), glen(GK(k)))


def at_def(I):
    arr, k, j = bv(EARR), bv(OBJ), ints(1)
    I.pc.append(FA([arr, k, j], Select(AT(arr, k), j) == Select(arr, Select(garr(GK(k)), j)), [Select(AT(arr, k), j)]))


class CCorr(Contract):
    """the correction at the position, and those at the positions it depends on"""
    target = f"{ME}.getCCorr"
    world_methods = {(ME, "gatherCorrKeys"): _gather}

    def make_args(self, I):
        return [RecV(ME, {"nodes": I.fresh_val("nodes", MapT(INT, OBJ))}), I.fresh_val("k", OBJ), I.fresh_val("Ed", MapT(OBJ, INT))]

    def requires(self, F):
        j, k, E = ints(1), F.args[1].term, F.args[2]
        return [("known", And(Select(E.dom, k), FA(j, Implies(rng(j, 0, glen(GK(k))), Select(E.dom, Select(garr(GK(k)), j))), [Select(garr(GK(k)), j)])))]

    def setup(self, I, F):
        at_def(I)

    def fresh_result(self, I, F):
        return Sc(INT, corr(F.args[2].arr, F.args[1].term))

    def ensures(self, F, res):
        if getattr(F, "caller", False):
            return []
        E = F.args[2]
        return [("sum", res.term == corr(F.old[2].arr, F.old[1].term)), ("unchanged", And(E.arr == F.old[2].arr, E.dom == F.old[2].dom))]


class CovSeq(Contract):
    """the occurrences of the tree at their times: the start, the unrolled time and the corrections it depends on, with their events"""
    target = f"{ME}.getCovSeq"
    defaults = {"E": []}
    getitem_hooks, contains_hooks = [_field], [_has]
    S = OccsStar()

    def make_args(self, I):
        return [RecV(ME, {"nodes": I.fresh_val("nodes", MapT(INT, OBJ))}), I.fresh_val("t0", INT), I.fresh_val("E", SeqT(INT))]

    def as_tree(self, F):
        """the call getOccsStar(0, [], 0)"""
        class G:
            pass
        G.args = G.old = [F.old[0], Sc(INT, z3.IntVal(0)), SeqV(PAIR, z3.IntVal(0), z3.Const("nothing", PARR)), Sc(INT, z3.IntVal(0))]
        G.I = F.I
        return G

    def pos(self, q):
        z = z3.IntVal(0)
        return KEY(self.S.FULL(z3.Const("nothing", PARR), z, z, q), z + self.S.PL(z, q))

    def nb(self):
        return self.S.LN(z3.IntVal(0))

    def requires(self, F):
        q, j, dep = ints(1), ints(1), z3.Function("depends_on", IS, IS, IS)
        ks = GK(self.pos(q))
        d = dep(q, j)
        return self.S.requires(self.as_tree(F)) + [
            ("root", self.S.isnode(F, z3.IntVal(0))),
            ("positions", FA([q, j], Implies(And(rng(q, 0, self.nb()), rng(j, 0, glen(ks))), And(rng(d, 0, self.nb()), Select(garr(ks), j) == self.pos(d))),
                             [Select(garr(ks), j)]))]

    def setup(self, I, F):
        at_def(I)
        L.used(I, "Pattern.gatherCorrKeys: a function of tree and position, whose values are positions of occurrences (checked within bounds)")
        self.terms(I, F)

    def c(self, F, q):
        e = F.old[-1]
        return If(And(q > 0, e.n >= self.nb() - 1), Select(e.arr, q - 1), 0)

    def terms(self, I, F):
        q, j, dep = ints(1), ints(1), z3.Function("depends_on", IS, IS, IS)
        F.g["of"] = cs = I.fresh_fn("corrections_of", IS, z3.ArraySort(IS, IS))
        I.pc.append(FA([q, j], Select(cs(q), j) == self.c(F, dep(q, j)), [Select(cs(q), j)]))

    def total(self, F, q):
        return self.c(F, q) + psum(F.g["of"](q), glen(GK(self.pos(q))))

    OUT = TupT(INT, OBJ)

    def fresh_result(self, I, F):
        return I.fresh_val("cov", SeqT(self.OUT))

    def times(self, F, res, t0):
        q, z = ints(1), z3.IntVal(0)
        x = Select(res.arr, q)
        t, e = (x, None) if res.ety == INT else (self.OUT.sort().accessor(0, 0)(x), self.OUT.sort().accessor(0, 1)(x))
        out = [("number", res.n == self.nb()),
               ("times", FA(q, Implies(rng(q, 0, res.n), t == self.S.TIME(z, q) + t0 + self.total(F, q)), [x]))]
        if e is not None:
            out.append(("events", FA(q, Implies(rng(q, 0, res.n), e == self.S.LAB(z, q)), [x])))
        return out

    def after_call(self, I, c, F, res):
        """the dictionary holds the corrections by position"""
        if isinstance(c, EDict):
            q, j, z = ints(1), ints(1), z3.IntVal(0)
            s = F.args[0]
            g = FA(q, Implies(rng(q, 0, self.nb()), And(okey(Select(s.arr, q)) == self.pos(q), Select(res.dom, self.pos(q)),
                                                       Select(res.arr, self.pos(q)) == self.c(I.F, q))), [Select(s.arr, q)])
            I.prove("lemma.by-position", g, kind="lemma")
            g2 = FA(q, Implies(rng(q, 0, self.nb()), And(Select(res.dom, self.pos(q)), Select(res.arr, self.pos(q)) == self.c(I.F, q))), [self.pos(q)])
            I.pc.append(g)
            I.seed(Select(s.arr, z3.IntVal(0)))
            y = I.fresh("q", IS)
            I.seed(Select(s.arr, y))
            I.prove("lemma.by-position-2", Implies(rng(y, 0, self.nb()), And(Select(res.dom, self.pos(y)), Select(res.arr, self.pos(y)) == self.c(I.F, y))), kind="lemma")
            I.pc.append(g2)
            x = I.fresh("q", IS)
            ks = GK(self.pos(x))
            hyp = rng(x, 0, self.nb())
            g = Implies(hyp, FA(j, Implies(rng(j, 0, glen(ks)), And(Select(res.dom, Select(garr(ks), j)),
                                                                  Select(AT(res.arr, self.pos(x)), j) == Select(I.F.g["of"](x), j))), [Select(garr(ks), j)]))
            I.prove("lemma.depends", g, kind="lemma")
            keep, I.pc = I.pc, [g, hyp]
            k = glen(ks)
            I.pc += [FA(j, Implies(rng(j, 0, k), Select(AT(res.arr, self.pos(x)), j) == Select(I.F.g["of"](x), j)), [Select(AT(res.arr, self.pos(x)), j)])]
            g3 = psum(AT(res.arr, self.pos(x)), k) == psum(I.F.g["of"](x), k)
            I.prove("lemma.sums", g3, kind="lemma")
            sub = lambda t: z3.substitute(t, (x, q))
            I.pc = keep + [FA(q, sub(g), [self.pos(q)]), FA(q, sub(Implies(hyp, g3)), [self.pos(q)])]

    def ensures(self, F, res):
        settle(res, SeqT(self.OUT))
        return self.times(F, res, F.old[1].term) + self.S.unchanged(F)


class Occs(Contract):
    """each occurrence given, at its time plus the start plus the corrections it depends on (by position)"""
    target = f"{ME}.getOccs"
    variant = "by position"

    def make_args(self, I):
        return [RecV(ME, {"nodes": I.fresh_val("nodes", MapT(INT, OBJ))}), I.fresh_val("oStar", SeqT(OCC)), I.fresh_val("t0", INT), I.fresh_val("E", MapT(OBJ, INT))]

    def requires(self, F):
        q, j, s, E = ints(1), ints(1), F.args[1], F.args[3]
        k = okey(Select(s.arr, q))
        return [("known", FA(q, Implies(rng(q, 0, s.n), Select(E.dom, k)), [Select(s.arr, q)])),
                ("known-dependencies", FA([q, j], Implies(And(rng(q, 0, s.n), rng(j, 0, glen(GK(k)))), Select(E.dom, Select(garr(GK(k)), j))),
                                          [Select(garr(GK(k)), j)]))]

    def setup(self, I, F):
        at_def(I)

    def fresh_result(self, I, F):
        return I.fresh_val("occs", SeqT(INT))

    def ensures(self, F, res):
        q, s, E = ints(1), F.old[1], F.old[3]
        settle(res, SeqT(INT))
        o = Select(s.arr, q)
        return [("number", res.n == s.n),
                ("times", FA(q, Implies(rng(q, 0, s.n), Select(res.arr, q) == otime(o) + F.old[2].term + corr(E.arr, okey(o))), [Select(res.arr, q)]))]


class OccsList(Contract):
    """each occurrence given, at its time plus the start plus the corrections it depends on (in order)"""
    target = f"{ME}.getOccs"
    variant = "in order"
    defaults = {"E": []}

    def make_args(self, I):
        return [RecV(ME, {"nodes": I.fresh_val("nodes", MapT(INT, OBJ))}), I.fresh_val("oStar", SeqT(OCC)), I.fresh_val("t0", INT), I.fresh_val("E", SeqT(INT))]

    def requires(self, F):
        q, j, s = ints(1), ints(1), F.args[1]
        dep = z3.Function("depends_on", IS, IS, IS)
        k, d = okey(Select(s.arr, q)), dep(q, j)

        class G:
            args = [s]
        return EDict().requires(G) + [("positions", FA([q, j], Implies(And(rng(q, 0, s.n), rng(j, 0, glen(GK(k)))), And(
            rng(d, 0, s.n), Select(garr(GK(k)), j) == okey(Select(s.arr, d)))), [Select(garr(GK(k)), j)]))]

    def c(self, F, q):
        e = F.old[-1]
        return If(And(q > 0, e.n >= F.old[1].n - 1), Select(e.arr, q - 1), 0)

    def setup(self, I, F):
        at_def(I)
        CovSeq.terms(self, I, F)

    def after_call(self, I, c, F, res):
        if isinstance(c, EDict):
            x, j, q = I.fresh("q", IS), ints(1), ints(1)
            s, of = I.F.old[1], I.F.g["of"]
            k = lambda q: okey(Select(s.arr, q))
            g = FA([q, j], Implies(And(rng(q, 0, s.n), rng(j, 0, glen(GK(k(q))))), And(Select(res.dom, Select(garr(GK(k(q))), j)),
                Select(AT(res.arr, k(q)), j) == Select(of(q), j))), [Select(garr(GK(k(q))), j)])
            I.prove("lemma.depends", g, kind="lemma")
            keep, hyp = I.pc, rng(x, 0, s.n)
            I.pc = [hyp, FA(j, Implies(rng(j, 0, glen(GK(k(x)))), Select(AT(res.arr, k(x)), j) == Select(of(x), j)), [Select(AT(res.arr, k(x)), j)])]
            g3 = psum(AT(res.arr, k(x)), glen(GK(k(x)))) == psum(of(x), glen(GK(k(x))))
            I.prove("lemma.sums", g3, kind="lemma")
            I.pc = keep + [g, FA(q, z3.substitute(Implies(hyp, g3), (x, q)), [Select(s.arr, q)])]

    def fresh_result(self, I, F):
        return I.fresh_val("occs", SeqT(INT))

    def ensures(self, F, res):
        q, s = ints(1), F.old[1]
        settle(res, SeqT(INT))
        o = Select(s.arr, q)
        return [("number", res.n == s.n),
                ("times", FA(q, Implies(rng(q, 0, s.n), Select(res.arr, q) == otime(o) + F.old[2].term + self.c(F, q) + psum(
                    F.g["of"](q), glen(GK(okey(o))))), [Select(res.arr, q)]))]
