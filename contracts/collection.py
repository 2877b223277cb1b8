"""collections of periodic patterns and what they leave uncovered (skmine/periodic/pattern_collection.py)

The occurrences of a pattern are a function covseq of the tree, its start and its corrections."""
from pyvc.contract import *
from pyvc.spec import *
from pyvc import lib as L, theory

MOD = "skmine/periodic/pattern_collection.py"
ME, DS = f"{MOD}::PatternCollection", "skmine/periodic/data_sequence.py::DataSequence"
OCC, E_ = TupT(INT, INT), SeqT(INT)
PAT, OCCS = TupT(OBJ, INT, E_), SeqT(OCC)
LISTS = SeqT(OCCS)
COV = z3.Function("covseq", OBJ.sort(), z3.IntSort(), E_.sort(), OCCS.sort())
fst, snd, thd = [PAT.sort().accessor(0, i) for i in range(3)]
olen, oarr = OCCS.sort().accessor(0, 0), OCCS.sort().accessor(0, 1)
otime, oev = OCC.sort().accessor(0, 0), OCC.sort().accessor(0, 1)


def cov(p):
    return COV(fst(p), snd(p), thd(p))


def _covseq(I, s, a, k, line):
    if isinstance(s, Sc) and s.ty == OBJ and len(a) == 2 and not k:
        L.used(I, "Pattern.getCovSeq: a function of the tree, the start and the corrections; changes nothing")
        return from_term(OCCS, COV(s.term, a[0].term, to_term(a[1])))


def computed(lists, pats, n):
    """the first n lists are the occurrences of the first n patterns"""
    j = ints(1)
    return FA(j, Implies(rng(j, 0, n), Select(lists.arr, j) == cov(Select(pats.arr, j))), [Select(lists.arr, j)])


def well(p):
    return olen(cov(p)) >= 0


class _Coll(Contract):
    world_methods = {("Sc", "getCovSeq"): _covseq}
    known = True

    def make_self(self, I):
        p = I.fresh_val("patterns", SeqT(PAT))
        return RecV(ME, {"patterns": p, "occ_lists": I.fresh_val("lists", LISTS) if self.known else NONE})

    def make_args(self, I):
        return [self.make_self(I)]

    def requires(self, F):
        me = F.args[0].attrs
        if isinstance(me["occ_lists"], NoneV):
            return []
        return [("known-lists", And(me["occ_lists"].n <= me["patterns"].n, computed(me["occ_lists"], me["patterns"], me["occ_lists"].n)))]

    def kept(self, F):
        now, was = F.args[0].attrs["patterns"], F.old[0].attrs["patterns"]
        return [("patterns-unchanged", And(now.n == was.n, now.arr == was.arr))]


class OccLists(_Coll):
    """one list per pattern, its occurrences, whatever was computed before"""
    target = f"{ME}.getOccLists"
    variant = "again"
    modifies = ((0, "occ_lists"),)

    def ensures(self, F, res):
        me = F.args[0].attrs
        settle(res, LISTS)
        settle(me["occ_lists"], LISTS)
        return [("one-per-pattern", res.n == me["patterns"].n), ("their-occurrences", computed(res, me["patterns"], res.n)),
                ("remembered", And(me["occ_lists"].n == res.n, computed(me["occ_lists"], me["patterns"], res.n)))] + self.kept(F)

    def fresh_result(self, I, F):
        v = I.fresh_val("lists", LISTS)
        F.args[0].attrs["occ_lists"] = v        # the list itself is handed out
        return v

    def loop_spec(self, Lc, ordn, depth):
        def inv(Lc, i):
            me = Lc.F.args[0].attrs
            l = settled(me["occ_lists"], LISTS)
            l0 = Lc.F.old[0].attrs["occ_lists"]
            n0 = l0.n if isinstance(l0, SeqV) else z3.IntVal(0)
            return [("so-far", And(l.n == n0 + i, computed(l, me["patterns"], l.n)))]
        return LoopSpec(inv)


class OccListsFirst(OccLists):
    variant = "first"
    known = False


MSUM = theory.mapsum_fn(z3.IntSort())


def sequence(I):
    d = RecV("dict", {"nbOccs": I.fresh_val("nbOccs", MapT(INT, INT)), "orgFreqs": I.fresh_val("orgFreqs", MapT(INT, REAL)),
                      "adjFreqs": I.fresh_val("adjFreqs", MapT(INT, REAL)), "blck_delim": I.fresh_val("blck_delim", REAL),
                      "deltaT": I.fresh_val("deltaT", INT)})
    return RecV(DS, {"seql": I.fresh_val("seql", OCCS), "seqd": I.fresh_val("seqd", MapT(INT, SeqT(INT))), "data_details": d})


def in_data(ds, x):
    i = ints(1)
    s = ds.attrs["seql"]
    return EX(i, And(rng(i, 0, s.n), Select(s.arr, i) == x))


def covered(pats, x):
    i, j = ints(2)
    c = cov(Select(pats.arr, j))
    return EX([j, i], And(rng(j, 0, pats.n), rng(i, 0, olen(c)), Select(oarr(c), i) == x))


class _Uncov(_Coll):
    def make_args(self, I):
        return [self.make_self(I), sequence(I)]

    def data_kept(self, F):
        out = []
        for k, v in F.args[1].attrs.items():
            w = F.old[1].attrs[k]
            if isinstance(v, SeqV):
                out.append((f"data-unchanged.{k}", And(v.n == w.n, v.arr == w.arr)))
            elif isinstance(v, MapV):
                out.append((f"data-unchanged.{k}", And(v.dom == w.dom, v.arr == w.arr)))
        return out

    def known_lists(self, F):
        me = F.args[0].attrs
        if isinstance(me["occ_lists"], NoneV):
            return []
        settle(me["occ_lists"], LISTS)
        return [("lists-valid", And(me["occ_lists"].n <= me["patterns"].n, computed(me["occ_lists"], me["patterns"], me["occ_lists"].n)))]


class Uncovered(_Uncov):
    """exactly the events of the data that no pattern covers"""
    target = f"{ME}.getUncoveredOccs"
    variant = "again"
    modifies = ((0, "occ_lists"),)

    def fresh_result(self, I, F):
        F.args[0].attrs["occ_lists"] = I.fresh_val("lists", LISTS)
        return I.fresh_val("uncovered", SetT(OCC))

    def ensures(self, F, res):
        settle(res, SetT(OCC))
        x = bv(OCC, "x")
        p, ds = F.old[0].attrs["patterns"], F.old[1]
        i, j = ints(2)
        c = cov(Select(p.arr, j))
        s = ds.attrs["seql"]
        return [("of-the-data", FA(x, Implies(Select(res.arr, x), in_data(ds, x)), [Select(res.arr, x)])),
                ("not-covered", FA([j, i], Implies(And(rng(j, 0, p.n), rng(i, 0, olen(c))), Not(Select(res.arr, Select(oarr(c), i)))))),
                ("all-others", FA(i, Implies(And(rng(i, 0, s.n), Not(Select(res.arr, Select(s.arr, i)))), covered(p, Select(s.arr, i))),
                                  [Select(s.arr, i)]))] + self.kept(F) + self.data_kept(F) + self.known_lists(F)


class UncoveredFirst(Uncovered):
    variant = "first"
    known = False


EVSET = z3.Function("of_event", SetT(OCC).sort(), z3.IntSort(), SetT(OCC).sort())


def evdef():
    A, e, x = bv(SetT(OCC), "A"), ints(1), bv(OCC, "x")
    return FA([A, e, x], Select(EVSET(A, e), x) == And(Select(A, x), oev(x) == e), [Select(EVSET(A, e), x)])


card = lambda a: theory.card_fn(OCC)(a)


class NbUncovered(_Uncov):
    """for each event with uncovered occurrences, how many"""
    target = f"{ME}.getNbUncoveredOccsByEv"
    modifies = ((0, "occ_lists"),)

    def fresh_result(self, I, F):
        F.args[0].attrs["occ_lists"] = I.fresh_val("lists", LISTS)
        F.g["U"] = I.fresh_val("uncovered", SetT(OCC))
        return I.fresh_val("counts", MapT(INT, INT))

    def setup(self, I, F):
        I.pc.append(evdef())

    def after_call(self, I, c, F, res):
        if isinstance(c, Uncovered):
            I.F.g["U"] = res
            I.F.g["spec"] = [(n, f) for n, f in c.ensures(F, res) if n in ("of-the-data", "not-covered", "all-others")]

    def ensures(self, F, res):
        settle(res, MapT(INT, INT))
        e, U = ints(1), F.g.get("U")
        if U is None:
            return [("form", F_)]
        out = []
        if getattr(F, "caller", False):
            out = [(n, f) for n, f in Uncovered.ensures(self, F, U) if n in ("of-the-data", "not-covered", "all-others")]
            F.I.pc.append(evdef())
        else:
            out = list(F.g["spec"])
        return out + [("counted", FA(e, And(Select(res.dom, e) == (card(EVSET(U.arr, e)) > 0),
                                            Implies(Select(res.dom, e), Select(res.arr, e) == card(EVSET(U.arr, e)))), [Select(res.dom, e)]))] \
            + self.kept(F) + self.data_kept(F) + self.known_lists(F)

    def loop_spec(self, Lc, ordn, depth):
        I = Lc.I
        if not isinstance(Lc.itv, SetV):
            return None
        U = Lc.itv
        n, E, pos = I.last_enum
        SEEN = I.fresh_fn("seen", z3.IntSort(), SetT(OCC).sort())
        i, x, e = ints(1), bv(OCC, "x"), ints(1)
        I.assume(FA([i, x], Select(SEEN(i), x) == And(Select(U.arr, x), pos(x) < i), [Select(SEEN(i), x)]))
        by = lambda i, e: EVSET(SEEN(i), e)
        none, all_ = SEEN(z3.IntVal(0)), SEEN(n)

        def lemma(name, A, B, extra=()):
            """two families of sets indexed by the event are the same"""
            I.prove("lemma." + name, FA([e, x], Select(A(e), x) == Select(B(e), x)), kind="lemma")
            I.pc.append(FA(e, A(e) == B(e), [A(e)]))
        lemma("none-seen", lambda e: by(z3.IntVal(0), e), lambda e: z3.K(OCC.sort(), F_))
        lemma("all-seen", lambda e: by(n, e), lambda e: EVSET(U.arr, e))

        def body(Lc, i):
            xi = Select(E, i)
            nx = lambda e: If(oev(xi) == e, z3.Store(by(i, e), xi, T), by(i, e))
            lemma("one-more", lambda e: by(i + 1, e), nx)
            f = Not(Select(EVSET(SEEN(i), oev(xi)), xi))
            I.prove("lemma.new", f, kind="lemma")
            return [f]

        def inv(Lc, i):
            m = Lc.var("nbs", MapT(INT, INT))
            return [("counted", FA(e, And(card(by(i, e)) == If(Select(m.dom, e), Select(m.arr, e), 0),
                                          Implies(Select(m.dom, e), Select(m.arr, e) >= 1)), [Select(m.dom, e)]))]
        return LoopSpec(inv, at_body=body)


CL = z3.Function("code_length_of_pattern", OBJ.sort(), z3.IntSort(), E_.sort(), z3.RealSort())


def _codelength(I, s, a, k, line):
    if isinstance(s, Sc) and s.ty == OBJ and len(a) == 3 and not k and a[2] is I.F.args[-1].attrs["data_details"]:
        L.used(I, "Pattern.codeLength: a function of the tree, its start, its corrections and the data; changes nothing")
        return Sc(REAL, CL(s.term, a[0].term, to_term(a[1])))


def one(d, e):
    """cost of one occurrence of event e"""
    return -log2(Select(d.attrs["orgFreqs"].arr, e)) + log2(R(d.attrs["deltaT"].term + 1))


def known_events(d, e):
    return And(*[Select(d.attrs[m].dom, e) for m in ("nbOccs", "orgFreqs", "adjFreqs")])


class CollLength(_Uncov):
    """the patterns, and each uncovered occurrence on its own"""
    target = f"{ME}.codeLength"
    modifies = ((0, "occ_lists"),)
    world_methods = {("Sc", "codeLength"): _codelength}

    def requires(self, F):
        s, d, i = F.args[1].attrs["seql"], F.args[1].attrs["data_details"], ints(1)
        return super().requires(F) + [("known-events", FA(i, Implies(rng(i, 0, s.n), known_events(d, oev(Select(s.arr, i)))), [Select(s.arr, i)]))]

    def setup(self, I, F):
        p = F.args[0].attrs["patterns"]
        F.g["cl"] = defarr(I, lambda j: CL(fst(Select(p.arr, j)), snd(Select(p.arr, j)), thd(Select(p.arr, j))))

    def after_call(self, I, c, F, res):
        if isinstance(c, NbUncovered):
            f, d = I.F, I.F.old[1].attrs["data_details"]
            f.g["nb"], U, e = res, F.g["U"], ints(1)
            some = theory.fn("some_" + OCC.name, SetT(OCC).sort(), OCC.sort())
            x = some(EVSET(U.arr, e))
            g = FA(e, Implies(Select(res.dom, e), known_events(d, e)), [Select(res.dom, e)])
            I.prove("lemma.an-occurrence", FA(e, Implies(Select(res.dom, e), And(Select(U.arr, x), oev(x) == e)), [Select(res.dom, e)]), kind="lemma")
            I.pc.append(FA(e, Implies(Select(res.dom, e), And(Select(U.arr, x), oev(x) == e)), [Select(res.dom, e)]))
            I.prove("lemma.known", g, kind="lemma")
            I.pc.append(g)
            a = I.fresh("cost", z3.ArraySort(z3.IntSort(), z3.RealSort()))
            I.pc.append(FA(e, Select(a, e) == R(Select(res.arr, e)) * one(d, e), [Select(a, e)]))
            f.g["costs"] = a

    def ensures(self, F, res):
        if "nb" not in F.g:
            return [("form", F_)]
        return [("total", R(res.term) == psum(F.g["cl"], F.old[0].attrs["patterns"].n) + MSUM(F.g["nb"].dom, F.g["costs"]))] + self.kept(F) + self.data_kept(F)

    def loop_spec(self, Lc, ordn, depth):
        I, F = Lc.I, Lc.I.F
        if depth or Lc.n is None:
            return None
        sums = [k for k in sorted(I.roots_modified(Lc.node.body)[0]) if isinstance(I.env.get(k), Sc) and I.env[k].ty in (REAL, INT)]
        start = {k: R(I.env[k].term) for k in sums}
        el = Lc.get(ints(1))
        if isinstance(el, TupV) and len(el.items) == 3:
            vals = F.g["cl"]
        elif isinstance(el, TupV) and len(el.items) == 2 and "nb" in F.g and I.last_enum_map is F.g["nb"]:
            L.used(I, "the sum of the values of a dictionary does not depend on the order of its keys")
            get, costs, nb = Lc.get, F.g["costs"], F.g["nb"]
            vals = defarr(I, lambda j: Select(costs, get(j).items[0].term))
            I.pc.append(psum(vals, Lc.n) == MSUM(nb.dom, costs))
        else:
            return None
        return LoopSpec(lambda Lc, i: [("sum." + k, R(Lc.I.env[k].term) == start[k] + psum(vals, i)) for k in sums])


class SeqLength(Contract):
    """every event of the data on its own"""
    target = f"{DS}.codeLengthResiduals"

    def make_args(self, I):
        return [sequence(I)]

    def requires(self, F):
        m, d, e = F.args[0].attrs["seqd"], F.args[0].attrs["data_details"], ints(1)
        return [("known-events", FA(e, Implies(Select(m.dom, e), known_events(d, e)), [Select(m.dom, e)]))]

    def setup(self, I, F):
        m, d, e = F.old[0].attrs["seqd"], F.old[0].attrs["data_details"], ints(1)
        ln = SeqT(INT).sort().accessor(0, 0)
        F.g["costs"] = a = I.fresh("cost", z3.ArraySort(z3.IntSort(), z3.RealSort()))
        I.pc.append(FA(e, Select(a, e) == R(ln(Select(m.arr, e))) * one(d, e), [Select(a, e)]))

    def ensures(self, F, res):
        m, w = F.args[0].attrs["seqd"], F.old[0].attrs["seqd"]
        return [("total", R(res.term) == MSUM(w.dom, F.g["costs"])), ("unchanged", And(m.dom == w.dom, m.arr == w.arr))]

    def loop_spec(self, Lc, ordn, depth):
        I, F = Lc.I, Lc.I.F
        el = Lc.get(ints(1)) if Lc.n is not None and not depth else None
        m, costs = F.args[0].attrs["seqd"], F.g["costs"]
        if not isinstance(el, TupV) or I.last_enum_map is not m:
            return None
        sums = [k for k in sorted(I.roots_modified(Lc.node.body)[0]) if isinstance(I.env.get(k), Sc) and I.env[k].ty in (REAL, INT)]
        start = {k: R(I.env[k].term) for k in sums}
        L.used(I, "the sum of the values of a dictionary does not depend on the order of its keys")
        get = Lc.get
        vals = defarr(I, lambda j: Select(costs, get(j).items[0].term))
        I.pc.append(psum(vals, Lc.n) == MSUM(m.dom, costs))
        return LoopSpec(lambda Lc, i: [("sum." + k, R(Lc.I.env[k].term) == start[k] + psum(vals, i)) for k in sums])
