"""callbacks observe every call with its result, never change it, and their collection is checked and immutable"""
from common import *
from skmine.callbacks import CallBacks
import warnings


def exhaustive(tier):
    for res in range(9):
        for cb in range(5):
            for n in (1, 2, 3):
                yield {"kind": "call", "res": res, "cb": cb, "n": n, "twice": False}
            yield {"kind": "call", "res": res, "cb": cb, "n": 2, "twice": True}
    for op in range(9):
        yield {"kind": "frozen", "op": op}
    for i in range(8):
        yield {"kind": "check", "i": i}
    for i in range(6):
        yield {"kind": "slim", "i": i}


def nontrivial(c):
    return True


RES = [10, None, 3.5, {"a": 1, "b": 2, "c": 3, "d": 4}, (1, 2), (1, 2, 3), object(), (4, [5]), 0]


class Boom(Exception):
    pass


def check(c):
    log = []
    if c["kind"] == "call":
        res = RES[c["res"]]

        class M:
            k = 0

            def f(self, a, b=1):
                M.k += 1
                log.append(("f", a, b))
                if a == "boom":
                    raise Boom()
                return res

            def g(self):
                return 77
        m = M()
        cb = [lambda r: log.append(("cb", r)), lambda self, r: log.append(("cb", self, r)),
              lambda self: log.append(("cb", self)), lambda self, x, y: log.append(("cb", self, x, y)),
              lambda x, y: log.append(("cb", x, y))][c["cb"]]
        tup = isinstance(res, tuple)
        if c["cb"] == 0 and isinstance(res, tuple):
            return
        if c["cb"] in (3, 4) and not (tup and len(res) == 2):
            return
        if c["cb"] == 0 and isinstance(res, dict):
            return
        cbs = CallBacks(f=cb)
        cbs(m)
        if c["twice"]:
            CallBacks(f=cb)(m)
        for i in range(c["n"]):
            del log[:]
            r = m.f(i, b=i + 5)
            expect(r is res, "the result {} became {}", res, r)
            expect(log[0] == ("f", i, i + 5), "arguments not passed on, or callback ran first: {}", log)
            want = {0: ("cb", res), 1: ("cb", m, res), 2: ("cb", m)}.get(c["cb"]) or \
                   (("cb", m) + res if c["cb"] == 3 else ("cb",) + res)
            cbcalls = [x for x in log if x[0] == "cb"]
            expect(len(cbcalls) == (2 if c["twice"] else 1) and all(same(x, want) for x in cbcalls),
                   "callback saw {} instead of {}", cbcalls, want)
            expect(len(log) == 1 + len(cbcalls), "the method ran more than once")
        expect(M.k == c["n"], "the method ran {} times for {} calls", M.k, c["n"])
        expect(m.g() == 77, "another method is affected")
        del log[:]
        expect(raises(Boom, m.f, "boom") is not None, "exception of the method lost")
        expect([x for x in log if x[0] == "cb"] == [], "callback ran although the method failed")
        other = M()
        del log[:]
        other.f(3)
        expect(len(log) == 1, "callback leaks to another instance")
    elif c["kind"] == "frozen":
        f = lambda x: x
        a = CallBacks(f=f)

        def ior():
            b = a
            b |= {"g": f}
        ops = [lambda: a.__setitem__("g", f), lambda: a.update(g=f), lambda: a.setdefault("g", f), lambda: a.pop("f"),
               lambda: a.popitem(), lambda: a.clear(), lambda: a.__delitem__("f"), ior,
               lambda: a.__setitem__("f", print)]
        e = raises(Exception, ops[c["op"]])
        expect(e is not None, "operation {} on a callback collection is accepted", c["op"])
        expect(dict(a) == {"f": f}, "operation {} changed the collection to {}", c["op"], dict(a))
    elif c["kind"] == "check":
        def setter(self, r):
            self.x = 3

        class M:
            z = 4

            def f(self):
                return 1
        m = M()
        i = c["i"]
        if i < 3:
            bad = [3, "abc", None][i]
            expect(raises(TypeError, lambda: CallBacks(f=bad)) is not None, "{} accepted as callback", bad)
        elif i == 3:
            expect(raises(ValueError, lambda: CallBacks(f=setter)) is not None, "callback that assigns to self accepted")
        elif i in (4, 5):
            name = ["nope", "z"][i - 4]
            good = log.append
            e = raises(ValueError, CallBacks(**{"f": good, name: good}), m)
            expect(e is not None, "callback on {} accepted", name)
            m.f()
            expect(log == [], "a rejected collection was attached in part")
        else:
            CallBacks(f=log.append)(m)
            m.f()
            expect(log == [1], "builtin callback: {}", log)
    else:
        from skmine.itemsets import SLIM
        D = [[["a", "b"], ["a", "b"], ["c"]], [["a"]], [["a", "b", "c"], ["a", "b"], ["b", "c"], ["a", "b", "c"]],
             [["a", "b", "d"], ["a", "b"], ["d", "c"]], [["x", "y", "z"]] * 3, [["a", "b"], ["c", "d"]] * 3][c["i"]]
        ref = SLIM().fit(D)
        s = SLIM()
        CallBacks(evaluate=lambda self, d, m, u: log.append(float(d + m)),
                  generate_candidates=lambda self, cands: log.append(list(cands)))(s)
        s.fit(D)
        expect([(sorted(a), list(b)) for a, b in s.codetable_.items()] ==
               [(sorted(a), list(b)) for a, b in ref.codetable_.items()], "callbacks changed the fitted model")
        expect(s.data_size_ == ref.data_size_ and s.model_size_ == ref.model_size_, "callbacks changed the sizes")
        expect(any(isinstance(x, list) for x in log), "callback never called")


def same(a, b):
    return len(a) == len(b) and all(x is y or x == y for x, y in zip(a, b))
