"""code lengths of cycles and of single occurrences (skmine/periodic/class_patterns.py)"""
from pyvc.contract import *
from pyvc.spec import *
from pyvc import lib as L
from pyvc import theory

MOD = "skmine/periodic/class_patterns.py"
OCC = SeqT(INT)


def details(I):
    return RecV("dict", {"nbOccs": I.fresh_val("nbOccs", MapT(OBJ, REAL)), "orgFreqs": I.fresh_val("orgFreqs", MapT(OBJ, REAL)),
                         "adjFreqs": I.fresh_val("adjFreqs", MapT(OBJ, REAL)), "blck_delim": I.fresh_val("blck_delim", REAL),
                         "deltaT": I.fresh_val("deltaT", INT)})


def known(d, ev):
    return [("event-known", And(*[Select(d.attrs[m].dom, ev) for m in ("nbOccs", "orgFreqs", "adjFreqs")]))]


def same_details(a, b):
    out = []
    for m in ("nbOccs", "orgFreqs", "adjFreqs"):
        out += [a.attrs[m].dom == b.attrs[m].dom, a.attrs[m].arr == b.attrs[m].arr]
    return [("details-unchanged", And(a.attrs["deltaT"].term == b.attrs["deltaT"].term,
                                      a.attrs["blck_delim"].term == b.attrs["blck_delim"].term, *out))]


def shifts(I, occs, p):
    """e_j = (o_{j+1} - o_j) - p"""
    return defarr(I, lambda j: Select(occs.arr, j + 1) - Select(occs.arr, j) - p)


def median_period(I, occs):
    """floor of the median of the distances between neighbours"""
    d = defarr(I, lambda j: Select(occs.arr, j + 1) - Select(occs.arr, j))
    return z3.ToInt(theory.seqfn("median_int", z3.IntSort(), z3.RealSort())(d, occs.n - 1))


def integer_floor(v):
    return v


class Period(Contract):
    """the period of a list of occurrences is the floor of the median distance"""
    target = f"{MOD}::computePeriod"

    def make_args(self, I):
        return [I.fresh_val("occs", OCC), Sc(BOOL, F_)]

    def requires(self, F):
        return [("two", F.args[0].n >= 2), ("in-order", Not(F.args[1].term) if isinstance(F.args[1], Sc) else T)]

    def ensures(self, F, res):
        return [("floor-of-median", res.term == median_period(F.I, F.old[0]))]

    def fresh_result(self, I, F):
        return I.fresh_val("period", INT)


class ShiftCorrections(Contract):
    """corrections: one per occurrence after the first, the difference between its distance and the period"""
    target = f"{MOD}::computeE"

    def make_args(self, I):
        return [I.fresh_val("occs", OCC), I.fresh_val("p0", INT), Sc(BOOL, F_)]

    def ensures(self, F, res):
        o, p = F.old[0], F.old[1].term
        j = ints(1)
        r = as_type(res, OCC)
        return [("one-per-distance", r.n == If(o.n > 0, o.n - 1, 0)),
                ("each", FA(j, Implies(rng(j, 0, r.n), Select(r.arr, j) == Select(o.arr, j + 1) - Select(o.arr, j) - p),
                            [Select(r.arr, j)]))]

    def fresh_result(self, I, F):
        return I.fresh_val("E", OCC)


class LengthE(Contract):
    """two bits per correction plus their absolute values"""
    target = f"{MOD}::computeLengthEOccs"

    def make_args(self, I):
        return [I.fresh_val("occs", OCC), I.fresh_val("cp", INT)]

    def requires(self, F):
        return [("one", F.args[0].n >= 1)]

    def ensures(self, F, res):
        o, p = F.old[0], F.old[1].term
        e = defarr(F.I, lambda j: 2 + absv(Select(o.arr, j + 1) - Select(o.arr, j) - p))
        return [("sum", res.term == psum(e, o.n - 1))]

    def fresh_result(self, I, F):
        return I.fresh_val("L_E", INT)


class CostOne(Contract):
    """-log2 of the relative frequency plus log2 of the span"""
    target = f"{MOD}::cost_one"

    def make_args(self, I):
        return [details(I), I.fresh_val("alpha", OBJ)]

    def requires(self, F):
        return known(F.args[0], F.args[1].term)

    def ensures(self, F, res):
        d, a = F.old[0], F.old[1].term
        return [("formula", R(res.term) == -log2(Select(d.attrs["orgFreqs"].arr, a)) + log2(R(d.attrs["deltaT"].term + 1)))] \
            + same_details(d, F.args[0])

    def fresh_result(self, I, F):
        return I.fresh_val("cost", REAL)


class LengthResidual(Contract):
    """each residual occurrence costs cost_one"""
    target = f"{MOD}::computeLengthResidual"

    def make_args(self, I):
        return [details(I), RecV("dict", {"alpha": I.fresh_val("alpha", OBJ), "occs": I.fresh_val("occs", OCC)})]

    def requires(self, F):
        return known(F.args[0], F.args[1].attrs["alpha"].term)

    def ensures(self, F, res):
        d, a, o = F.old[0], F.old[1].attrs["alpha"].term, F.old[1].attrs["occs"]
        return [("formula", R(res.term) == R(o.n) * (-log2(Select(d.attrs["orgFreqs"].arr, a))
                                                     + log2(R(d.attrs["deltaT"].term + 1))))]


class _Cycle(Contract):
    target = f"{MOD}::computeLengthCycle"
    given = False

    def make_args(self, I):
        c = {"alpha": I.fresh_val("alpha", OBJ), "occs": I.fresh_val("occs", OCC),
             "p": I.fresh_val("p", INT) if self.given else NONE}
        return [details(I), RecV("dict", c), I.fresh_val("print_dets", BOOL), I.fresh_val("no_err", BOOL)]

    def requires(self, F):
        return known(F.args[0], F.args[1].attrs["alpha"].term) + [("two", F.args[1].attrs["occs"].n >= 2)]

    def ensures(self, F, res):
        I = F.I
        d, c, noerr = F.old[0], F.old[1], F.old[3].term
        a, o = c.attrs["alpha"].term, c.attrs["occs"]
        p = c.attrs["p"].term if self.given else median_period(I, o)
        n, dT = o.n, d.attrs["deltaT"].term
        e = shifts(I, o, p)
        ae = defarr(I, lambda j: 2 + absv(Select(o.arr, j + 1) - Select(o.arr, j) - p))
        dE = If(noerr, z3.IntVal(0), psum(e, n - 1))
        LE = If(noerr, z3.IntVal(0), psum(ae, n - 1))
        room = dT - dE - p * (n - 1) + 1
        spec = (-log2(Select(d.attrs["adjFreqs"].arr, a)) + d.attrs["blck_delim"].term
                + log2(Select(d.attrs["nbOccs"].arr, a))
                + log2(R(z3.ToInt(R(dT - dE) / (R(n) - 1))))
                + If(room <= 0, z3.RealVal(0), log2(R(room))) + R(LE))
        o1 = F.args[1].attrs["occs"]
        return [("formula", R(res.term) == spec), ("occurrences-unchanged", And(o1.n == o.n, o1.arr == o.arr))] \
            + same_details(d, F.args[0])


class LengthCycleGiven(_Cycle):
    """event + repetitions + period + start + corrections, for the period given"""
    variant, given = "period given", True


class LengthCycle(_Cycle):
    """event + repetitions + period + start + corrections, for the median period"""
    variant, given = "median period", False


class CostTriple(Contract):
    """the code length of a cycle of three occurrences, from its smaller distance and their difference"""
    target = f"{MOD}::cost_triple"

    def make_args(self, I):
        return [details(I), I.fresh_val("alpha", OBJ), I.fresh_val("dp", INT), I.fresh_val("deltaE", INT)]

    def requires(self, F):
        return known(F.args[0], F.args[1].term)

    def ensures(self, F, res):
        d, a, dp, dE = F.old[0], F.old[1].term, F.old[2].term, F.old[3].term
        dT = d.attrs["deltaT"].term
        spec = (-log2(Select(d.attrs["adjFreqs"].arr, a)) + d.attrs["blck_delim"].term + log2(Select(d.attrs["nbOccs"].arr, a))
                + log2(R(dT - dE - 2 * dp + 1)) + log2(R(z3.ToInt(R(dT - dE) / 2))) + 4 + R(absv(dE)))
        return [("formula", R(res.term) == spec)]
