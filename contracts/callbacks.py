"""callbacks run once after each completed call and change nothing else (skmine/callbacks.py)"""
import ast
from pyvc.contract import *
from pyvc.spec import *
from pyvc import lib as L
from pyvc.engine import PyRaise, Mismatch
from pyvc.lib import used

CB = "skmine/callbacks.py"
OSEQ, OMAP = SeqT(OBJ), MapT(OBJ, OBJ)


def params_stub(I, a, k, line):
    used(I, "inspect.signature lists the parameter names of a callback (or none are known)")
    c = I.c
    if not (len(a) == 1 and a[0] is I.F.args[2]):
        raise Unsupported("parameters of something else than the callback")
    return I.F.g["params"]


def getattr_stub(I, a, k, line):
    F = I.F
    if len(a) == 2 and a[0] is F.args[0] and isinstance(a[1], Sc) and a[1] is F.args[1]:
        return F.g["rebound"] if F.g.get("wrapped") else F.g["func"]
    raise Unsupported("getattr")


def callable_stub(I, a, k, line):
    return Sc(BOOL, z3.BoolVal(True)) if isinstance(a[0], (OpaqueV, FnV)) else None


class Post(Contract):
    """the function returned calls the method once with the same arguments and then, once, the callback (with the result,
    spread when it is a tuple the callback takes so, preceded by the object when the callback has a parameter self), and
    returns the result; when the method raises, so does it, without calling back; no state is kept between calls"""
    target = f"{CB}::post"
    result = "value"
    extra = {"getattr": getattr_stub, "callable": callable_stub}
    world_extra = {f"{CB}::_get_params": params_stub}

    def make_args(self, I):
        self.log = []
        return [I.fresh_val("self", OBJ), I.fresh_val("name", OBJ), OpaqueV("callback")]

    def setup(self, I, F):
        F.g.update(func=OpaqueV("the method"), rebound=OpaqueV("the attribute after attachment"), params=I.fresh_val("params", OSEQ),
                   star=FnV("star", val=OpaqueV("*args")), kw=OpaqueV("**kwargs"), fails=I.fresh("method_fails", z3.BoolSort()),
                   takes=I.fresh("callback_takes_the_tuple_spread", z3.BoolSort()), log=[])
        F.g["res"] = I.fresh_val("res", OBJ) if self.result == "value" else I.fresh_val("res", OSEQ)
        if self.result != "value":
            F.g["res"].kind = "tuple"
        P = F.g["params"]
        F.g["has_self"] = L.contains(I, StrV("self"), P, 0)

    def flat(self, I, args):
        """arguments of a call as one sequence of values"""
        if any(isinstance(x, FnV) and x.kind == "star" and not isinstance(x.val, SeqV) for x in args):
            raise PyRaise("TypeError", 0)      # a value that cannot be spread
        out = TupV([])
        for x in args:
            y = x.val if isinstance(x, FnV) and x.kind == "star" else TupV([x])
            if out.items == [] and isinstance(out, TupV):
                out = y
            elif isinstance(out, TupV) and isinstance(y, TupV):
                out = TupV(out.items + y.items)
            else:
                out = L.concat(I, out, y)
        return out

    def call_hook(self, I, fn, args, kwargs, line):
        g = I.F.g
        if fn is g.get("func"):
            ok = len(args) == 1 and args[0] is g["star"] and list(kwargs) == ["**"] and kwargs["**"] is g["kw"]
            g["log"].append(("call", ok))
            if I.decide(g["fails"]):
                raise PyRaise("the exception of the method", line)
            return g["res"]
        if fn is g.get("rebound"):
            g["log"].append(("recursion", False))
            return g["res"]
        if fn is I.F.args[2]:
            spread = any(isinstance(x, FnV) and x.kind == "star" for x in args)
            a = self.flat(I, args)
            if kwargs:
                raise Unsupported("keyword arguments of a callback")
            if spread and isinstance(a, SeqV) and self.result != "value" and I.F.g["plain"]:
                if not I.decide(g["takes"]):
                    raise PyRaise("TypeError", line)
            g["log"].append(("callback", a))
            return OpaqueV("what the callback returns")
        return None

    def isinstance_hook(self, I, v, c):
        if v is I.F.g.get("res") and isinstance(c, FnV) and c.kind == "global" and c.name in ("tuple", "list"):
            return self.result != "value" if c.name == "tuple" else (False if self.result != "value" else None)
        return None

    def ensures(self, F, res):
        I, g = F.I, F.g
        if not isinstance(res, FnV):
            return [("returns-a-function", F_)]
        me, P = F.args[0], g["params"]
        out = [("nothing-called-yet", z3.BoolVal(not g["log"]))]
        g["wrapped"] = True
        before = {k: (v, I.state_of(v)) for k, v in (res.env.items() if res.kind == "closure" else ())}
        has_self = I.decide(g["has_self"])
        g["plain"] = not has_self
        if self.result == "value" and has_self:
            # a callback with more parameters than self and the result expects a tuple
            I.assume(P.n <= 2)
        I.assume(Implies(z3.BoolVal(has_self), P.n >= 1))
        exc, r = None, None
        try:
            r = I.world.apply(I, res, [g["star"]], {"**": g["kw"]}, 0)
        except PyRaise as e:
            exc = e.name
        log = g["log"]
        if exc is not None:
            out += [("exception-of-the-method", z3.BoolVal(exc == "the exception of the method")),
                    ("no-callback-when-it-fails", z3.BoolVal([x[0] for x in log] == ["call"])),
                    ("same-arguments", z3.BoolVal(all(x[1] is True for x in log if x[0] == "call")))]
            return out
        out += [("method-once-then-callback-once", z3.BoolVal([x[0] for x in log] == ["call", "callback"])),
                ("same-arguments", z3.BoolVal(all(x[1] is True for x in log if x[0] == "call"))),
                ("result-returned", z3.BoolVal(r is g["res"]))]
        if [x[0] for x in log] != ["call", "callback"]:
            return out
        want, got = self.expected(I, has_self), log[1][1]
        out.append(("callback-sees-the-result", self.same(I, got, want)))
        for k, (v, st) in before.items():
            if res.env.get(k) is not v or not I.same_state(st, I.state_of(v)):
                raise Unsupported("the function keeps state between calls")
        return out

    def expected(self, I, has_self):
        g = I.F.g
        me, P, res = I.F.args[0], g["params"], g["res"]
        if has_self:
            if I.decide(P.n == 1):
                return TupV([me])
            if I.decide(P.n == 2):
                return TupV([me, res])
            return L.concat(I, TupV([me]), res)
        if self.result == "value" or not I.decide(g["takes"]):
            return TupV([res])
        return res

    def same(self, I, a, b):
        if isinstance(a, TupV) and isinstance(b, TupV):
            return z3.BoolVal(len(a.items) == len(b.items) and all(
                x is y or isinstance(x, Sc) and isinstance(y, Sc) and x.term.eq(y.term) for x, y in zip(a.items, b.items)))
        if isinstance(a, TupV) or isinstance(b, TupV):
            # a sequence of known length against one of symbolic length
            t, s = (a, b) if isinstance(a, TupV) else (b, a)
            if any(not (isinstance(x, Sc) and x.ty == OBJ) for x in t.items):
                return F_
            return And(s.n == len(t.items), *[Select(s.arr, j) == x.term for j, x in enumerate(t.items)])
        j = ints(1)
        return And(a.n == b.n, FA(j, Implies(rng(j, 0, a.n), Select(a.arr, j) == Select(b.arr, j)), [Select(b.arr, j)]))


class PostTuple(Post):
    """the same for a method that returns a tuple, of any length"""
    variant, result = "tuple", "tuple"


# ---------------------------------------------------------------------- the collection
CALLABLE = z3.Function("callable", OBJ_SORT, z3.BoolSort())
ASSIGNS = z3.Function("assigns_to_self", OBJ_SORT, z3.BoolSort())
BROKEN = z3.Function("getattr_fails", OBJ_SORT, z3.BoolSort())
WRAP = z3.Function("wrapped", OBJ_SORT, OBJ_SORT, OBJ_SORT, OBJ_SORT)


def view_stub(name):
    from pyvc.world import container_method

    def h(I, s, a, k, line):
        return container_method(I, s.attrs["__data__"], name, a, k, line, I.world)
    return h


CLS = f"{CB}::CallBacks"
VIEWS = {(CLS, n): view_stub(n) for n in ("keys", "values", "items", "get")}


def collection(I, data=None):
    return RecV(CLS, {"__data__": data or I.fresh_val("callbacks", OMAP)})


def data_of(F, old=False):
    return (F.old if old else F.args)[0].attrs["__data__"]


def all_good(m):
    k = bv(OBJ, "k")
    return FA(k, Implies(Select(m.dom, k), And(CALLABLE(Select(m.arr, k)), Not(ASSIGNS(Select(m.arr, k))))), [Select(m.dom, k)])


def assigns_stub(I, a, k, line):
    used(I, "has_self_assigment decides whether a callback assigns to self")
    return Sc(BOOL, ASSIGNS(a[0].term))


class Check(Contract):
    """returns exactly when every callback can be called and none assigns to self; raises TypeError or ValueError otherwise"""
    target = f"{CB}::CallBacks._check"
    may_raise = frozenset(["TypeError", "ValueError"])
    world_methods = VIEWS
    world_extra = {f"{CB}::has_self_assigment": assigns_stub}

    def make_args(self, I):
        return [collection(I)]

    def kept(self, F):
        a, b = data_of(F), data_of(F, True)
        return [("unchanged", And(a.dom == b.dom, a.arr == b.arr))]

    def raises(self, F):
        k = bv(OBJ, "k")
        m = data_of(F)
        e1 = EX(k, And(Select(m.dom, k), Not(CALLABLE(Select(m.arr, k)))))
        return [("TypeError", e1), ("ValueError", Not(all_good(m)))]

    def ensures(self, F, res):
        return [("all-good", all_good(data_of(F)))] + self.kept(F)

    def on_raise(self, F, exc):
        k = bv(OBJ, "k")
        m = data_of(F)
        bad = {"TypeError": lambda v: Not(CALLABLE(v)), "ValueError": lambda v: ASSIGNS(v)}.get(exc)
        return [("for-cause", EX(k, And(Select(m.dom, k), bad(Select(m.arr, k)))) if bad else F_)] + self.kept(F)

    def loop_spec(self, L_, ordn, depth):
        def inv(L_, i):
            I = L_.I
            en = L_.__dict__.setdefault("en", I.last_enum)
            m = data_of(L_.F)
            k = bv(OBJ, "k")
            return [("good", FA(k, Implies(And(Select(m.dom, k), en[2](k) < i), And(
                CALLABLE(Select(m.arr, k)), Not(ASSIGNS(Select(m.arr, k))))), [Select(m.dom, k)]))]
        return LoopSpec(inv)


def dict_init(I, a, k, line):
    used(I, "dict.__init__(self, **kwargs) holds the keyword arguments")
    if not (len(a) == 1 and isinstance(a[0], RecV) and list(k) == ["**"] and isinstance(k["**"], MapV)):
        raise Unsupported("dict.__init__")
    o = k["**"]
    a[0].attrs["__data__"] = MapV(OBJ, OBJ, o.dom, o.arr)
    return NONE


class Init(Contract):
    """a collection holds exactly the callbacks given; it exists only when they are all good"""
    target = f"{CB}::CallBacks.__init__"
    may_raise = frozenset(["TypeError", "ValueError"])
    world_extra = {"dict.__init__": dict_init}
    world_methods = VIEWS

    def make_args(self, I):
        kw = I.fresh_val("kwargs", OMAP)
        return [RecV(CLS, {"__data__": MapV(OBJ, OBJ, z3.K(OBJ_SORT, z3.BoolVal(False)), kw.arr)}), kw]

    def ensures(self, F, res):
        m, kw = F.args[0].attrs["__data__"], F.old[1]
        return [("holds-them", And(m.dom == kw.dom, m.arr == kw.arr)), ("all-good", all_good(m))]

    def on_raise(self, F, exc):
        return [("error-type", z3.BoolVal(exc in self.may_raise)), ("for-cause", Not(all_good(F.old[1])))]


MUTATORS = ("__setitem__", "__delitem__", "__ior__", "update", "setdefault", "pop", "popitem", "clear")


class Frozen(Contract):
    """every operation of a dict that would change the collection raises NotImplementedError and changes nothing"""
    target = f"{CB}::CallBacks._frozen"
    may_raise = frozenset(["NotImplementedError"])
    world_methods = VIEWS

    def make_args(self, I):
        return [collection(I), OpaqueV("args"), OpaqueV("kwargs")]

    def setup(self, I, F):
        m = I.world.module(CB)
        bound = {}
        for st in m.classes["CallBacks"].body:
            if isinstance(st, ast.FunctionDef):
                bound[st.name] = st
            elif isinstance(st, ast.Assign):
                v = st.value
                node = bound.get(v.id) if isinstance(v, ast.Name) else None
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        bound[t.id] = node
        me = I.fnode
        for nm in MUTATORS:
            b = bound.get(nm)
            if b is not None and b is not me:
                raise Unsupported(f"{nm} has a body of its own")
            I.prove(f"bound.{nm}", z3.BoolVal(b is me), me.lineno)

    def ensures(self, F, res):
        return [("never-returns", F_)]

    def on_raise(self, F, exc):
        a, b = data_of(F), data_of(F, True)
        return [("error-type", z3.BoolVal(exc == "NotImplementedError")), ("unchanged", And(a.dom == b.dom, a.arr == b.arr))]


def dir_stub(I, a, k, line):
    used(I, "dir() lists the attributes of an object")
    if a[0] is not I.F.args[1]:
        raise Unsupported("dir of another object")
    return L.list_of(I, I.F.args[1].attrs["__names__"])


def attr_stub(I, a, k, line):
    if len(a) != 2 or a[0] is not I.F.args[1]:
        raise Unsupported("getattr")
    n = coerce_term(a[1], OBJ)
    if I.decide(BROKEN(n)):
        raise PyRaise("AttributeError", line)
    return Sc(OBJ, Select(I.F.args[1].attrs["__map__"].arr, n))


def post_stub(I, a, k, line):
    """by the contract Post"""
    if k or len(a) != 3 or a[0] is not I.F.args[1]:
        raise Unsupported("post")
    I.trusted.add(f"contract:{CB}::post")
    n, c = coerce_term(a[1], OBJ), coerce_term(a[2], OBJ)
    f = Select(I.F.args[1].attrs["__map__"].arr, n)
    I.prove("pre.post.method", And(Not(BROKEN(n)), CALLABLE(f)), line, "pre")
    r = WRAP(n, f, c)
    I.assume(CALLABLE(r))
    return Sc(OBJ, r)


class Attach(Contract):
    """attaches every callback to the method of its name, around that method, leaving every other attribute alone; or
    raises ValueError, when some name is no method, and then attaches none"""
    target = f"{CB}::CallBacks.__call__"
    may_raise = frozenset(["ValueError"])
    world_methods = VIEWS
    extra = {"dir": dir_stub, "getattr": attr_stub}
    world_extra = {f"{CB}::post": post_stub}

    def make_args(self, I):
        at = I.fresh_val("attributes", OMAP)
        return [collection(I), RecV("object", {"__map__": at, "__names__": SetV(OBJ, at.dom)})]

    def method(self, F):
        at = F.old[1].attrs["__map__"]
        return lambda k: And(Select(at.dom, k), Not(BROKEN(k)), CALLABLE(Select(at.arr, k)))

    def attached(self, F, done):
        m, at, a0 = data_of(F, True), F.args[1].attrs["__map__"], F.old[1].attrs["__map__"]
        k = bv(OBJ, "k")
        return [("attached", FA(k, Select(at.arr, k) == If(done(k), WRAP(k, Select(a0.arr, k), Select(m.arr, k)),
                                                          Select(a0.arr, k)), [Select(at.arr, k)])),
                ("attributes", FA(k, Select(at.dom, k) == Select(a0.dom, k), [Select(at.dom, k)]))]

    def kept(self, F):
        a, b = data_of(F), data_of(F, True)
        return [("collection-unchanged", And(a.dom == b.dom, a.arr == b.arr))]

    def ensures(self, F, res):
        m = data_of(F, True)
        k = bv(OBJ, "k")
        return self.attached(F, lambda k: Select(m.dom, k)) + self.kept(F) + [
            ("methods-only", FA(k, Implies(Select(m.dom, k), self.method(F)(k)), [Select(m.dom, k)]))]

    def on_raise(self, F, exc):
        m = data_of(F, True)
        k = bv(OBJ, "k")
        return [("error-type", z3.BoolVal(exc == "ValueError")),
                ("no-such-method", EX(k, And(Select(m.dom, k), Not(self.method(F)(k)))))] + self.kept(F) + \
            self.attached(F, lambda k: F_)

    def loop_spec(self, L_, ordn, depth):
        it = L_.itv
        m = data_of(L_.F)
        of = it.map if isinstance(it, FnV) and it.kind == "keysview" else getattr(it, "items_of", None)
        if of is m or it is L_.F.args[0]:
            changes = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr"
                          for st in L_.node.body for x in ast.walk(st))
            checks = any(isinstance(x, ast.Raise) for st in L_.node.body for x in ast.walk(st))

            def inv(L_, i):
                en = L_.__dict__.setdefault("en", L_.I.last_enum)
                done = lambda k: And(Select(m.dom, k), en[2](k) < i)
                k = bv(OBJ, "k")
                out = []
                if changes:
                    out += self.attached(L_.F, done)
                if checks:
                    out += [("known", FA(k, Implies(done(k), self.method(L_.F)(k)), [Select(m.dom, k)]))]
                return out
            return LoopSpec(inv)
        if isinstance(it, SeqV) and it.ety == OBJ:
            def inv(L_, i):
                v = L_.mod_of(OSEQ)
                j, l = ints(2)
                f = self.method(L_.F)
                return [("are-methods", FA(j, Implies(rng(j, 0, v.n), f(Select(v.arr, j))), [Select(v.arr, j)])),
                        ("all-methods", FA(j, Implies(And(rng(j, 0, i), f(Select(it.arr, j))), EX(l, And(
                            rng(l, 0, v.n), Select(v.arr, l) == Select(it.arr, j)))), [Select(it.arr, j)]))]
            return LoopSpec(inv)
        return None
