"""parameters are accepted exactly on their documented domain (skmine/utils.py, skmine/base.py)"""
from pyvc.contract import *
from pyvc.spec import *
from pyvc import lib as L

UTILS = "skmine/utils.py"
BASE = "skmine/base.py"


class Accept(Contract):
    """returns exactly when dom(F) holds, raises `error` otherwise"""
    error = "ValueError"

    def dom(self, F):
        raise NotImplementedError

    def ensures(self, F, res):
        return [("accepted-in-domain", self.dom(F))] + self.value(F, res)

    def value(self, F, res):
        return [("returns-nothing", z3.BoolVal(isinstance(res, NoneV)))]

    def on_raise(self, F, exc):
        return [("error-type", z3.BoolVal(exc == self.error)), ("rejected-outside-domain", Not(self.dom(F)))]


class MinSuppInt(Accept):
    target, variant = f"{UTILS}::_check_min_supp", "int"

    def make_args(self, I):
        return [I.fresh_val("min_supp", INT), I.fresh_val("accept_absolute", BOOL)]

    def dom(self, F):
        return And(F.args[1].term, F.args[0].term >= 1)


class MinSuppFloat(Accept):
    target, variant = f"{UTILS}::_check_min_supp", "float"

    def make_args(self, I):
        return [I.fresh_val("min_supp", REAL), I.fresh_val("accept_absolute", BOOL)]

    def dom(self, F):
        return And(F.args[0].term >= 0, F.args[0].term <= 1)


class MinSuppOther(Accept):
    target, variant = f"{UTILS}::_check_min_supp", "any other type"
    error = "TypeError"

    def make_args(self, I):
        return [I.fresh_val("min_supp", OBJ), I.fresh_val("accept_absolute", BOOL)]

    def isinstance_hook(self, I, v, c):
        return False

    def dom(self, F):
        return F_


class GrowthRate(Accept):
    target, variant = f"{UTILS}::_check_growth_rate", "number"

    def make_args(self, I):
        return [I.fresh_val("gr", REAL)]

    def dom(self, F):
        return F.args[0].term > 1

    def value(self, F, res):
        return [("unchanged", res.term == F.old[0].term)]


class _Seed(Accept):
    target = f"{UTILS}::_check_random_state"

    def dom(self, F):
        return T

    def rs(I, a, k, line):
        L.used(I, "numpy.random.RandomState(seed) is a new generator")
        return RecV("RandomState", {"seed": a[0]})

    world_extra = {"numpy.random.RandomState": rs}


class SeedInt(_Seed):
    variant = "int"

    def make_args(self, I):
        return [I.fresh_val("seed", INT)]

    def isinstance_hook(self, I, v, c):
        n = c.name if isinstance(c, FnV) else ""
        return n.split(".")[-1] in ("Integral", "int", "Number")

    def value(self, F, res):
        ok = isinstance(res, RecV) and res.cls == "RandomState" and "seed" in res.attrs
        return [("a-new-generator", z3.BoolVal(ok)),
                ("from-this-seed", res.attrs["seed"].term == F.old[0].term if ok else F_)]


class SeedGenerator(_Seed):
    variant = "RandomState"

    def make_args(self, I):
        return [RecV("RandomState", {})]

    def isinstance_hook(self, I, v, c):
        n = c.name if isinstance(c, FnV) else ""
        return n.split(".")[-1] == "RandomState"

    def value(self, F, res):
        return [("the-same-object", z3.BoolVal(res is F.args[0]))]


class SeedOther(_Seed):
    """neither None nor numpy.random itself, an integer or a RandomState"""
    variant = "any other type"

    def requires(self, F):
        s = F.args[0].term
        return [("not-none", s != z3.Const("None", OBJ_SORT)), ("not-module", s != z3.Const("global:numpy.random", OBJ_SORT))]

    def make_args(self, I):
        return [I.fresh_val("seed", OBJ)]

    def isinstance_hook(self, I, v, c):
        return False

    def dom(self, F):
        return F_


PM = MapT(OBJ, OBJ)


def miner(I):
    return RecV(f"{BASE}::BaseMiner", {"__map__": I.fresh_val("attributes", PM), "__names__": I.fresh_val("names", SetT(OBJ))})


class ParamNames(Contract):
    """assumed: introspection of the constructor signature"""
    target = f"{BASE}::BaseMiner._get_param_names"
    trusted = True

    def make_args(self, I):
        return [miner(I)]

    def fresh_result(self, I, F):
        return L.list_of(I, F.args[0].attrs["__names__"])


class GetParams(Contract):
    """maps each parameter name to the attribute of that name, and nothing else; changes nothing"""
    target = f"{BASE}::BaseMiner.get_params"

    def make_args(self, I):
        return [miner(I), I.fresh_val("deep", BOOL)]

    def requires(self, F):
        s = F.args[0]
        k = bv(OBJ, "k")
        return [("parameters-are-attributes", FA(k, Implies(Select(s.attrs["__names__"].arr, k),
                                                            Select(s.attrs["__map__"].dom, k))))]

    def facts(self, s, m, done):
        k = bv(OBJ, "k")
        at = s.attrs["__map__"]
        return [("names", FA(k, Select(m.dom, k) == done(k), [Select(m.dom, k)])),
                ("values", FA(k, Implies(done(k), Select(m.arr, k) == Select(at.arr, k)), [Select(m.arr, k)]))]

    def ensures(self, F, res):
        s = F.args[0]
        names = s.attrs["__names__"].arr
        k = bv(OBJ, "k")
        a0, a1 = F.old[0].attrs["__map__"], s.attrs["__map__"]
        m = as_type(res, PM)
        return self.facts(s, m, lambda k: Select(names, k)) + [
            ("attributes-unchanged", And(a0.dom == a1.dom, a0.arr == a1.arr))]

    def fresh_result(self, I, F):
        return I.fresh_val("params", PM)

    def loop_spec(self, L_, ordn, depth):
        def inv(L_, i):
            j = ints(1)
            it = L_.itv
            if not isinstance(it, SeqV):
                raise Unsupported("parameter names")
            return self.facts(L_.F.args[0], L_.mod_of(PM), lambda k: EX(j, And(rng(j, 0, i), Select(it.arr, j) == k),
                                                                       [Select(it.arr, j)]))
        return LoopSpec(inv)


class SetParams(Contract):
    """sets exactly the attributes named, and rejects (ValueError) names that are no parameters"""
    target = f"{BASE}::BaseMiner.set_params"
    may_raise = frozenset(["ValueError"])

    def make_args(self, I):
        return [miner(I), I.fresh_val("params", PM)]

    def requires(self, F):
        return GetParams().requires(F)

    def facts(self, F, done):
        s, p = F.args
        k = bv(OBJ, "k")
        a0, a1 = F.old[0].attrs["__map__"], s.attrs["__map__"]
        names = s.attrs["__names__"].arr
        return [("known", FA(k, Implies(done(k), Select(names, k)))),
                ("set", FA(k, Select(a1.arr, k) == If(done(k), Select(p.arr, k), Select(a0.arr, k)), [Select(a1.arr, k)])),
                ("attributes", FA(k, Select(a1.dom, k) == Select(a0.dom, k), [Select(a1.dom, k)]))]

    def ensures(self, F, res):
        return self.facts(F, lambda k: Select(F.old[1].dom, k)) + [("returns-self", z3.BoolVal(res is F.args[0]))]

    def on_raise(self, F, exc):
        k = bv(OBJ, "k")
        return [("error-type", z3.BoolVal(exc == "ValueError")),
                ("unknown-name", EX(k, And(Select(F.old[1].dom, k), Not(Select(F.args[0].attrs["__names__"].arr, k)))))]

    def loop_spec(self, L_, ordn, depth):
        def inv(L_, i):
            I, F = L_.I, L_.F
            n, e, pos = L_.en if hasattr(L_, "en") else I.last_enum
            L_.en = (n, e, pos)
            k = bv(OBJ, "k")
            done = lambda k: And(Select(F.old[1].dom, k), pos(k) < i)
            vp = L_.mod_of(PM)
            return self.facts(F, done) + [("valid", FA(k, Select(vp.dom, k) == Select(
                F.args[0].attrs["__names__"].arr, k), [Select(vp.dom, k)]))]
        return LoopSpec(inv)
