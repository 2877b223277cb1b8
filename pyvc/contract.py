"""Contracts: sidecar specifications attached to functions of /repo by qualified name."""
import z3
from .types import *
from .vals import *


class LoopSpec:
    """invariant of one loop; inv(L, i) -> [(name, formula)] for i completed iterations"""

    def __init__(self, inv, decreases=None, at_body=None):
        self._inv, self._dec, self._body = inv, decreases, at_body

    def inv(self, L, i):
        return self._inv(L, i)

    def decreases(self, L):
        return self._dec(L) if self._dec is not None else None

    def at_body(self, L, i):
        if self._body is not None:
            for f in self._body(L, i) or []:
                L.I.pc.append(f)


class Contract:
    target = ""
    modifies = ()          # indices of parameters (or (index, attr)) changed by the call
    shallow = False        # the containers named in modifies change, the values they hold do not
    reciprocal = False     # a / b read as a * (1 / b)
    defaults = {}          # parameter -> the value it has when it is not given
    may_raise = frozenset()
    is_generator = False
    trusted = False        # assumed, never verified (external / out of reach)
    loops = {}
    variant = ""
    extra = {}
    attr_hooks = []
    getitem_hooks = []
    contains_hooks = []
    setitem_hooks = []
    setattr_hooks = []
    binop_hooks = []             # (I, operator or 'neg', left, right or None, line) -> value or None
    text_keyed_maps = False      # dictionaries written with constant texts as keys are maps (other keys may follow)
    tuple_order = False          # sorting by tuples: the lexicographic order is part of what is known of the result
    timeout = 10

    @property
    def short(self):
        return self.target.split("::")[1].split(".")[-1]

    @property
    def name(self):
        n = self.target.split("::")[1]
        return n + (f"[{self.variant}]" if self.variant else "")

    @property
    def is_method(self):
        return "." in self.target.split("::")[1]

    def make_args(self, I):
        raise NotImplementedError

    def requires(self, F):
        return []

    def raises(self, F):
        """[(exception, condition)]: the call raises it exactly when the condition holds (used at call sites)"""
        return []

    def ensures(self, F, res):
        return []

    def on_raise(self, F, exc):
        """obligations on a path that raises exc: by default no exception may escape"""
        return [("none-escapes", z3.BoolVal(exc in self.may_raise))]

    def setup(self, I, F):
        pass

    def init_yield(self, I, F):
        pass

    def on_yield(self, I, F, v, line):
        raise Unsupported("yield")

    def on_yield_from(self, I, F, v, line):
        raise Unsupported("yield from")

    def loop_spec(self, L, ordn, depth):
        if depth == 0:
            return self.loops.get(ordn)
        return None

    def havoc_ghost(self, I, L):
        pass

    def call_hook(self, I, fn, args, kwargs, line):
        return None

    def after_call(self, I, callee, F, res):
        """lemmas about a call just made (F: its arguments, res: its result)"""

    def values_hook(self, I, m, n, get):
        """facts about the n values of the dictionary m"""

    def isinstance_hook(self, I, v, c):
        return None

    def adapt_args(self, I, vals):
        return vals

    def fresh_result(self, I, F):
        return NONE

    def lemmas(self, F):
        return []
