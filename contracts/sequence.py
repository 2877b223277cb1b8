"""event sequences: numbering, counts and frequencies (skmine/periodic/data_sequence.py, class_patterns.py)"""
from pyvc.contract import *
from pyvc.spec import *
from pyvc.engine import Mismatch
from pyvc import lib as L, theory

CP, DS = "skmine/periodic/class_patterns.py", "skmine/periodic/data_sequence.py::DataSequence"
MSUM = theory.mapsum_fn(z3.IntSort())
NUM = MapT(INT, REAL)
third = z3.RealVal(1) / 3


class Frequencies(Contract):
    """the counts and their total; the share of each event, and a third of it; the delimiters have a third each"""
    target = f"{CP}::makeOccsAndFreqsThird"
    text_keyed_maps = True

    def make_args(self, I):
        return [I.fresh_val("counts", NUM)]

    def requires(self, F):
        m, k = F.args[0], ints(1)
        return [("no-total", Not(Select(m.dom, -1))), ("occur", FA(k, Implies(Select(m.dom, k), Select(m.arr, k) > 0), [Select(m.dom, k)]))]

    def setup(self, I, F):
        m, k = F.old[0], ints(1)
        L.used(I, "a sum of positive numbers is at least each of them")
        I.assume(FA(k, Implies(Select(m.dom, k), self.total(F) >= Select(m.arr, k)), [Select(m.dom, k)]))
        self.shares(F)

    def shares(self, F):
        """names for the shares"""
        if "share" not in F.g:
            m, k, S = F.old[0], ints(1), self.total(F)
            f, g = F.I.fresh_fn("share", z3.IntSort(), z3.RealSort()), F.I.fresh_fn("adjusted", z3.IntSort(), z3.RealSort())
            F.I.pc.append(FA(k, And(f(k) == Select(m.arr, k) / S), [f(k)]))
            F.I.pc.append(FA(k, And(g(k) == Select(m.arr, k) / (3 * S)), [g(k)]))
            F.g["share"] = f, g
        return F.g["share"]

    def values_hook(self, I, m, n, get):
        if m.kty == INT and m.vty == REAL:
            L.used(I, "the sum of the values of a dictionary does not depend on the order of its keys")
            I.assume(psum(defarr(I, lambda j: get(j).term), n) == MSUM(m.dom, m.arr))

    def adapt_args(self, I, vals):
        m = vals[0]
        settle(m, NUM)
        if isinstance(m, MapV) and m.ty == MapT(INT, INT):
            a, k = I.fresh("counts", z3.ArraySort(z3.IntSort(), z3.RealSort())), ints(1)
            I.assume(FA(k, Select(a, k) == R(Select(m.arr, k)), [Select(a, k)]))
            vals = [MapV(INT, REAL, m.dom, a)]
        return vals

    def total(self, F):
        m = F.old[0]
        return MSUM(m.dom, m.arr)

    def parts(self, res):
        if isinstance(res, TupV) and len(res.items) == 4:
            nb, org, adj, bd = res.items
            if isinstance(nb, MapV) and isinstance(org, MapV) and isinstance(adj, MapV) and isinstance(bd, Sc):
                return as_type(nb, NUM), as_type(org, NUM), as_type(adj, MapT(OBJ, REAL)), bd
        return None

    def ensures(self, F, res):
        p = self.parts(res)
        if p is None:
            return [("form", F_)]
        nb, org, adj, bd = p
        m, k = F.old[0], ints(1)
        S, box = self.total(F), theory.box_fn()
        share, adjusted = self.shares(F)
        o, c = theory.text_const("("), theory.text_const(")")
        x = bv(OBJ, "x")
        return [("events", FA(k, Select(nb.dom, k) == Or(Select(m.dom, k), k == -1), [Select(nb.dom, k)])),
                ("counts", FA(k, Implies(Select(m.dom, k), Select(nb.arr, k) == Select(m.arr, k)), [Select(nb.arr, k)])),
                ("total", Select(nb.arr, -1) == S),
                ("share-of", FA(k, Select(org.dom, k) == Select(m.dom, k), [Select(org.dom, k)])),
                ("shares", FA(k, Implies(Select(m.dom, k), Select(org.arr, k) == share(k)), [Select(org.arr, k)])),
                ("adjusted-of", And(Select(adj.dom, o), Select(adj.dom, c), FA(k, Select(adj.dom, box(k)) == Select(m.dom, k), [box(k)]))),
                ("adjusted", FA(k, Implies(Select(m.dom, k), Select(adj.arr, box(k)) == adjusted(k)), [box(k)])),
                ("delimiters", And(Select(adj.arr, o) == third, Select(adj.arr, c) == third, R(bd.term) == -(log2(third) + log2(third)))),
                ("counts-unchanged", And(F.args[0].dom == m.dom, F.args[0].arr == m.arr))]

    def fresh_result(self, I, F):
        return TupV([I.fresh_val("nbOccs", NUM), I.fresh_val("orgFreqs", NUM), I.fresh_val("adjFreqs", MapT(OBJ, REAL)), I.fresh_val("delim", REAL)])

    def loop_spec(self, Lc, ordn, depth):
        I, F = Lc.I, Lc.I.F
        if depth or Lc.n is None:
            return None
        pos, m, S, box = I.last_enum[2], F.old[0], self.total(F), theory.box_fn()
        o, c = theory.text_const("("), theory.text_const(")")
        k = ints(1)
        dom = I.last_enum_map.dom
        changed = sorted({r for r, _ in I.roots_modified(Lc.node.body)[1] if isinstance(I.env.get(r), MapV)})
        share, adjusted = self.shares(F)
        for nm, v in sorted(I.env.items()):
            if isinstance(v, MapV) and v.ty == NUM and nm not in changed and v is not F.args[0]:
                I.try_lemma("total", Select(v.arr, -1) == S)
                I.try_lemma("counts", FA(k, Implies(Select(m.dom, k), Select(v.arr, k) == Select(m.arr, k)), [Select(v.arr, k)]))

        def inv(Lc, i):
            out = []
            for nm in changed:
                v = Lc.I.env[nm]
                settle(v, NUM)
                key, val = (box, adjusted) if v.kty == OBJ else ((lambda k: k), share)
                t = [key(k)] if v.kty == OBJ else [Select(v.dom, k)]
                done = And(Select(dom, k), Select(m.dom, k), pos(k) < i)
                out += [(nm + ".events", FA(k, Select(v.dom, key(k)) == done, t)),
                        (nm + ".shares", FA(k, Implies(done, Select(v.arr, key(k)) == val(k)), t))]
                if v.kty == OBJ:
                    out.append((nm + ".delimiters", And(Select(v.dom, o), Select(v.dom, c), Select(v.arr, o) == third, Select(v.arr, c) == third)))
            return out
        return LoopSpec(inv)


TS = SeqT(INT)
OCC = TupT(INT, INT)
OCCS = SeqT(OCC)
otime, oev = OCC.sort().accessor(0, 0), OCC.sort().accessor(0, 1)
mkocc = OCC.sort().constructor(0)
tlen, tarr = TS.sort().accessor(0, 0), TS.sort().accessor(0, 1)


class Sequence(Contract):
    """events numbered in order; each keeps its times; the sequence lists all of them"""
    target = f"{DS}.__init__"
    variant = "from a dictionary"

    def make_args(self, I):
        return [RecV(DS, {}), I.fresh_val("seq", MapT(OBJ, TS))]

    def requires(self, F):
        m, e = F.args[1], bv(OBJ, "e")
        return [("times", FA(e, Implies(Select(m.dom, e), tlen(Select(m.arr, e)) > 0), [Select(m.dom, e)]))]

    tuple_order = True

    def attr(self, F, nm, ty):
        v = F.args[0].attrs.get(nm)
        if v is None:
            raise Mismatch("no attribute " + nm)
        v = as_type(v, ty)
        if v.ty != ty:
            raise Mismatch("attribute " + nm)
        return v

    def numbered(self, F, lev, num):
        """position in the list of events <-> number"""
        m, e, i, j = F.old[1], bv(OBJ, "e"), *ints(2)
        lt = z3.Function("obj_lt", OBJ.sort(), OBJ.sort(), z3.BoolSort())
        return [("numbers", FA(e, Select(num.dom, e) == Select(m.dom, e))),
                ("number-of", FA(e, Implies(Select(m.dom, e), And(rng(Select(num.arr, e), 0, lev.n), Select(lev.arr, Select(num.arr, e)) == e)), [Select(num.arr, e)])),
                ("event-of", FA(i, Implies(rng(i, 0, lev.n), And(Select(m.dom, Select(lev.arr, i)), Select(num.arr, Select(lev.arr, i)) == i)), [Select(lev.arr, i)])),
                ("in-order", FA([i, j], Implies(And(0 <= i, i < j, j < lev.n), Not(lt(Select(lev.arr, j), Select(lev.arr, i)))),
                                [z3.MultiPattern(Select(lev.arr, i), Select(lev.arr, j))]))]

    def times(self, F, lev, seqd, done=None):
        m, k = F.old[1], ints(1)
        e = Select(lev.arr, k)
        return [("times-of", FA(k, Select(seqd.dom, k) == And(rng(k, 0, lev.n), T if done is None else done(k)), [Select(seqd.dom, k)])),
                ("times", FA(k, Implies(Select(seqd.dom, k), Select(seqd.arr, k) == Select(m.arr, e)), [Select(seqd.dom, k)]))]

    def values(self, nm, v, seqd):
        k, a = ints(2)
        ts, x = Select(seqd.arr, k), Select(v.arr, k)
        at = Select(tarr(ts), a)
        if nm == "evNbOccs":
            return [("number", FA(k, Implies(Select(v.dom, k), x == tlen(ts)), [x]))]
        if nm in ("evStarts", "evEnds"):
            le = at >= x if nm == "evStarts" else at <= x
            return [("bound", FA([k, a], Implies(And(Select(v.dom, k), rng(a, 0, tlen(ts))), le), [at])),
                    ("reached", FA(k, Implies(Select(v.dom, k), EX(a, And(rng(a, 0, tlen(ts)), at == x))), [x]))]
        return []

    def listed(self, seqd, seql, done=lambda k: T):
        k, a, j = ints(3)
        ts = lambda k: Select(seqd.arr, k)
        x = lambda j: Select(seql.arr, j)
        return [("of-the-log", FA(j, Implies(rng(j, 0, seql.n), And(Select(seqd.dom, oev(x(j))), done(oev(x(j))), EX(a, And(
                    rng(a, 0, tlen(ts(oev(x(j))))), otime(x(j)) == Select(tarr(ts(oev(x(j)))), a))))), [x(j)])),
                ("all-listed", FA([k, a], Implies(And(Select(seqd.dom, k), done(k), rng(a, 0, tlen(ts(k)))), EX(j, And(
                    rng(j, 0, seql.n), x(j) == mkocc(Select(tarr(ts(k)), a), k)))), [Select(tarr(ts(k)), a)]))]

    def ensures(self, F, res):
        m = F.old[1]
        lev, num = self.attr(F, "list_ev", SeqT(OBJ)), self.attr(F, "map_ev_num", MapT(OBJ, INT))
        seqd, seql = self.attr(F, "seqd", MapT(INT, TS)), self.attr(F, "seql", OCCS)
        i, j = ints(2)
        a, b = Select(seql.arr, i), Select(seql.arr, j)
        return self.numbered(F, lev, num) + self.times(F, lev, seqd) + self.listed(seqd, seql) + [
            ("chronological", FA([i, j], Implies(And(0 <= i, i < j, j < seql.n), Or(otime(a) < otime(b), And(otime(a) == otime(b), oev(a) <= oev(b)))),
                                 [z3.MultiPattern(a, b)])),
            ("log-unchanged", And(F.args[1].dom == m.dom, F.args[1].arr == m.arr))] + self.details(F, seqd, seql)

    def details(self, F, seqd, seql):
        d = F.args[0].attrs.get("data_details")
        if not isinstance(d, RecV):
            raise Mismatch("details")
        d = d.attrs
        k, j = ints(2)
        out = []
        for nm in ("evStarts", "evEnds"):
            v = self.attr(F, nm, MapT(INT, INT))
            out += [(nm + ".events", FA(k, Select(v.dom, k) == Select(seqd.dom, k), [Select(v.dom, k)]))]
            out += [(f"{nm}.{n}", f) for n, f in self.values(nm, v, seqd)]
        nb, org, adj = as_type(d["nbOccs"], NUM), as_type(d["orgFreqs"], NUM), as_type(d["adjFreqs"], MapT(OBJ, REAL))
        if not (isinstance(nb, MapV) and isinstance(org, MapV) and isinstance(adj, MapV)):
            raise Mismatch("details")
        n = F.I.fresh("number", z3.ArraySort(z3.IntSort(), z3.RealSort()))
        F.I.pc.append(FA(k, Select(n, k) == R(tlen(Select(seqd.arr, k))), [Select(n, k)]))
        tot = MSUM(seqd.dom, n)
        t0, t1 = d["t_start"].term, d["t_end"].term
        I = F.I
        st, en = self.attr(F, "evStarts", MapT(INT, INT)), self.attr(F, "evEnds", MapT(INT, INT))
        return out + [("counted", FA(k, And(Select(nb.dom, k) == Or(Select(seqd.dom, k), k == -1), Implies(Select(seqd.dom, k), Select(nb.arr, k) == Select(n, k))), [Select(nb.dom, k)])),
                      ("total", Select(nb.arr, -1) == tot),
                      ("frequencies-of", FA(k, Select(org.dom, k) == Select(seqd.dom, k), [Select(org.dom, k)])),
                      ("frequencies", FA(k, Implies(Select(seqd.dom, k), Select(org.arr, k) == Select(n, k) / tot), [Select(org.arr, k)])),
                      ("span", d["deltaT"].term == t1 - t0)]

    def loop_spec(self, Lc, ordn, depth):
        I, F = Lc.I, Lc.I.F
        if depth or Lc.n is None:
            return None
        m, pos = I.last_enum_map, I.last_enum[2]
        me = F.args[0].attrs
        assigned, mutated = I.roots_modified(Lc.node.body)
        if m.kty == OBJ:
            lev, num = me.get("list_ev"), me.get("map_ev_num")
            q = getattr(lev, "perminv", None)
            if q is not None and isinstance(num, MapV) and not I.typing:
                e, i = bv(OBJ, "e"), ints(1)
                w = lambda e: q(pos(e))
                I.try_lemma("position", FA(e, Implies(Select(m.dom, e), And(rng(w(e), 0, lev.n), Select(lev.arr, w(e)) == e)), [Select(m.dom, e)]))
                I.try_lemma("distinct", FA(i, Implies(rng(i, 0, lev.n), And(Select(m.dom, Select(lev.arr, i)), w(Select(lev.arr, i)) == i)), [Select(lev.arr, i)]))
                I.try_lemma("numbered", FA(e, And(Select(num.dom, e) == Select(m.dom, e), Implies(Select(m.dom, e), Select(num.arr, e) == w(e))), [Select(num.dom, e)]))
                I.try_lemma("numbered", FA(e, And(Select(num.dom, e) == Select(m.dom, e), Implies(Select(m.dom, e), Select(num.arr, e) == w(e))), [Select(m.dom, e)]))
                for nm, f in self.numbered(F, lev, num):
                    I.try_lemma(nm, f)

            def inv(Lc, i):
                seqd, lev = settled(me["seqd"], MapT(INT, TS)), me["list_ev"]
                return self.times(F, lev, seqd, lambda k: And(Select(m.dom, Select(lev.arr, k)), pos(Select(lev.arr, k)) < i))
            return LoopSpec(inv)
        seqd = me["seqd"]
        if m is not seqd:
            return None
        if any(r == "self" for r, _ in mutated):
            E = I.last_enum[1]
            lens = defarr(I, lambda p: tlen(Select(seqd.arr, Select(E, p))))
            loc = I.fresh_fn("loc", z3.IntSort(), z3.IntSort(), z3.IntSort())
            p, a = ints(2)
            I.assume(FA([p, a], loc(p, a) == psum(lens, p) + a, [loc(p, a)]))

            def inv(Lc, i):
                l = settled(me["seql"], OCCS)
                k = Select(E, p)
                t = Select(tarr(Select(seqd.arr, k)), a)
                return self.listed(seqd, l, lambda k: pos(k) < i)[:1] + [
                    ("length", l.n == psum(lens, i)),
                    ("located", FA([p, a], Implies(And(rng(p, 0, i), rng(a, 0, tlen(Select(seqd.arr, k)))), And(
                        rng(loc(p, a), 0, l.n), Select(l.arr, loc(p, a)) == mkocc(t, k))), [t]))]
            return LoopSpec(inv)
        maps = sorted({r for r, _ in mutated if isinstance(I.env.get(r), MapV)})
        k = ints(1)

        def inv(Lc, i):
            out = []
            for nm in maps:
                v = Lc.I.env[nm]
                settle(v, MapT(INT, INT))
                out.append((nm + ".events", FA(k, Select(v.dom, k) == And(Select(seqd.dom, k), pos(k) < i), [Select(v.dom, k)])))
                out += [(f"{nm}.{n}", f) for n, f in self.values(nm, v, seqd)]
            return out
        return LoopSpec(inv)
