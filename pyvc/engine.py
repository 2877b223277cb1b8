"""Symbolic executor: turns the *current source* of a function plus its contract into
named proof obligations.

Paths are explored by re-execution along a decision trace, so the interpreter below is
written in direct style.  Loops are cut at their invariants; calls to functions under
contract use the contract only; calls to other repository functions are inlined."""
import ast
import sys
import z3
from .types import *
from .vals import *
from . import theory


class PathEnd(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, name, line=0):
        self.name, self.line = name, line


class PyReturn(Exception):
    def __init__(self, val):
        self.val = val


class PyBreak(Exception):
    pass


class PyContinue(Exception):
    pass


class Mismatch(Exception):
    """a contract's loop annotation does not fit the current source"""


class Ob:
    def __init__(self, fn, name, line, assumptions, goal, kind):
        self.fn, self.name, self.line, self.assumptions, self.goal, self.kind = fn, name, line, assumptions, goal, kind

    def __repr__(self):
        return f"{self.fn}:{self.name}@{self.line}"


MUTATORS = {"add", "append", "update", "remove", "discard", "insert", "pop", "extend", "clear", "setdefault",
            "sort", "reverse", "difference_update", "intersection_update", "popitem", "popleft", "appendleft"}


def occurs(v, t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.eq(v):
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo += x.children()
    return False


class Interp:
    occurs = staticmethod(occurs)

    MAX_PATHS = 400
    MAX_INLINE = 6

    def __init__(self, world, contract, fnode, module):
        self.world, self.c, self.fnode, self.module = world, contract, fnode, module
        self.obs = []
        self.notes = []          # engine remarks (degraded loops, ...)
        self.degraded = []
        self.trusted = set()     # library contracts used
        self.paths = 0
        self.end_states = []     # (label, assumptions) for reachability
        self.typing = 0
        self.tried = {}

    # ------------------------------------------------------------------ paths
    def explore(self):
        self.typed = {}
        work = [[]]
        while work:
            trace = work.pop()
            self.paths += 1
            if self.paths > self.MAX_PATHS:
                raise Unsupported("too many paths")
            self.trace, self.tpos, self.forced = trace, 0, len(trace)
            self.newdec = []
            self._reset()
            try:
                self.run_function()
            except PathEnd:
                pass
            # queue the alternatives of every fresh decision
            for k in range(len(self.trace) - 1, self.forced - 1, -1):
                if self.trace[k][1]:
                    work.append([t for t in self.trace[:k]] + [(1 - self.trace[k][0], False)])
        return self.obs

    def _reset(self):
        self.fact_names = {}
        self.env = {}
        self.pc = []
        self.bound = []       # [(vars, guards)]
        self.cnt = 0
        self.ghost = {}
        self.call_depth = 0
        self.try_stack = []
        self.classes = []
        self.loop_ord = 0

    @property
    def fresh_part(self):
        return self.tpos >= self.forced

    def choose(self):
        """nondeterministic binary choice (0 first)"""
        if self.bound:
            raise Unsupported("branching inside a quantified context")
        if self.tpos < len(self.trace):
            d = self.trace[self.tpos][0]
        else:
            d = 0
            self.trace.append((0, True))
        self.tpos += 1
        return d

    def decide(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if _has_quant(cond):
            from .solve import alpha_eq
            neg = z3.simplify(z3.Not(cond))
            for f in self.pc:
                if _has_quant(f):
                    f = z3.simplify(f)
                    if alpha_eq(f, cond):
                        return True
                    if alpha_eq(f, neg):
                        return False
        if self.typing == 0:
            # one-sided feasibility: avoids exploring impossible branches
            fz = self.quick_unsat([cond])
            if fz:
                self.entailed(z3.Not(cond))
                self.pc.append(z3.Not(cond))
                return False
            if self.quick_unsat([z3.Not(cond)]):
                self.entailed(cond)
                self.pc.append(cond)
                return True
        d = self.choose()
        if d == 0:
            self.pc.append(cond)
            return True
        self.pc.append(z3.Not(cond))
        return False

    def decide_all(self, cond):
        """decide whether cond holds for every element of the comprehension under evaluation"""
        if not self.bound:
            return self.decide(cond)
        f, saved = self.wrap(cond), self.bound
        self.bound = []
        try:
            return self.decide(f)
        finally:
            self.bound = saved

    def entailed(self, f):
        """a shortcut taken on the word of the library solver is an obligation of its own"""
        self.prove("branch", f, getattr(self, "cur_line", 0), "path")

    def entails(self, f):
        if self.typing or self.bound or not self.quick_unsat([z3.Not(f)]):
            return False
        self.entailed(f)
        return True

    def quick_unsat(self, extra):
        s = z3.Solver()
        s.set("timeout", 150)
        qf = [p for p in self.pc if not _has_quant(p)]
        s.add(*qf)
        s.add(*extra)
        return s.check() == z3.unsat

    # ---------------------------------------------------------------- assume / prove
    def wrap(self, f):
        for vs, gs in reversed(self.bound):
            if z3.is_quantifier(f) and f.is_forall() and f.num_patterns():
                # merge the quantifiers when the inner trigger mentions the outer variables
                xs = [z3.Const(f.var_name(k), f.var_sort(k)) for k in range(f.num_vars())]
                inst = lambda t: z3.substitute_vars(t, *reversed(xs))
                pats = [inst(f.pattern(k)) for k in range(f.num_patterns())]
                if all(all(occurs(v, p) for v in vs) for p in pats):
                    body = inst(f.body())
                    body = z3.Implies(z3.And(*gs), body) if gs else body
                    try:
                        f = z3.ForAll(list(vs) + xs, body, qid="merged_" + f.qid(), patterns=[
                            z3.MultiPattern(*p.children()) if z3.is_app(p) and p.decl().name() == "pattern" else p for p in pats])
                        continue
                    except z3.Z3Exception:
                        pass
            body = z3.Implies(z3.And(*gs), f) if gs else f
            f = z3.ForAll(list(vs), body, qid="wrap")
        return f

    def assume(self, f, pats=None):
        f = self.wrap(f)
        self.pc.append(f)

    def forall(self, vs, body, pats=None):
        vs = list(vs)
        f = sys._getframe(1)
        qid = f"{f.f_code.co_name}_{f.f_lineno}"
        if pats:
            try:
                return z3.ForAll(vs, body, patterns=pats, qid=qid)
            except z3.Z3Exception:
                pass
        return z3.ForAll(vs, body, qid=qid)

    def seed(self, *terms):
        """put terms where triggers can see them (says nothing about them)"""
        for t in terms:
            self.pc.append(z3.Function("seed_" + str(t.sort()).replace(" ", ""), t.sort(), z3.BoolSort())(t))

    def src_pattern(self, get, j):
        """the term of the j-th element of the source of a comprehension, when it can serve as a trigger"""
        try:
            t = to_term(get(j))
        except Exception:
            return None
        if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED) and t.num_args() \
                and any(c.eq(j) for c in t.children()):
            return t
        return None

    def forall2(self, vs, body, pats, extra):
        """assume the same formula under two triggers"""
        self.assume(self.forall(vs, body, pats))
        if extra is not None and all(occurs(v, extra) for vs_, _ in self.bound for v in vs_):
            self.assume(self.forall(vs, body, [extra]))

    def fresh(self, name, sort):
        self.cnt += 1
        nm = f"{name}!{self.cnt}"
        bvs = [v for vs, _ in self.bound for v in vs]
        if bvs:
            f = z3.Function(nm, *([v.sort() for v in bvs] + [sort]))
            return f(*bvs)
        return z3.Const(nm, sort)

    def fresh_fn(self, name, *sorts):
        self.cnt += 1
        nm = f"{name}!{self.cnt}"
        bvs = [v for vs, _ in self.bound for v in vs]
        f = z3.Function(nm, *([v.sort() for v in bvs] + list(sorts)))
        return lambda *a: f(*(bvs + list(a)))

    def bvar(self, name, sort):
        self.cnt += 1
        return z3.Const(f"{name}?{self.cnt}", sort)

    def fresh_val(self, name, ty):
        v = from_term(ty, self.fresh(name, ty.sort()))
        if isinstance(v, SeqV):
            v = SeqV(ty.args[0], self.fresh(name + "_n", z3.IntSort()),
                     self.fresh(name + "_a", z3.ArraySort(z3.IntSort(), ty.args[0].sort())))
            self.assume(v.n >= 0)
        elif isinstance(v, MapV):
            v = MapV(ty.args[0], ty.args[1], self.fresh(name + "_d", z3.ArraySort(ty.args[0].sort(), z3.BoolSort())),
                     self.fresh(name + "_v", z3.ArraySort(ty.args[0].sort(), ty.args[1].sort())))
        elif isinstance(v, TupV):
            v = TupV([self.fresh_val(f"{name}_{i}", t) for i, t in enumerate(ty.args)])
        return v

    def prove(self, name, goal, line=0, kind="post"):
        if self.typing:
            return
        goal = self.wrap(goal)
        g = z3.simplify(goal)
        if not self.fresh_part:
            return
        self.obs.append(Ob(self.c.name, name, line, list(self.pc), goal, kind))

    def prove_without(self, drop, name, goal, line=0, kind="post"):
        """prove from fewer assumptions: without the named facts of callees (a subset of what is known, hence sound)"""
        keep = self.pc
        self.pc = [f for f in keep if self.fact_names.get(f.get_id(), "") not in drop]
        self.prove(name, goal, line, kind)
        self.pc = keep

    def try_lemma(self, name, goal, assume=None):
        """an intermediate fact that helps when it holds: tried now, and an obligation of its own when taken"""
        if self.typing or self.bound:
            return False
        from .solve import holds_now
        key = (name, tuple(t[0] for t in self.trace[:self.tpos]), goal.sexpr())
        if key not in self.tried:
            self.tried[key] = holds_now(self.pc, goal)
        if self.tried[key]:
            self.prove("lemma." + name, goal, kind="lemma")
            self.pc.append(goal if assume is None else assume)
        return self.tried[key]

    def same_sets(self, name, target, ety, skip=()):
        """which of the local sets are the set target: from here on the same term"""
        x = self.bvar("x", ety.sort())
        seen = {t.get_id() for t in skip}
        for k in sorted(self.env):
            v = self.env[k]
            if isinstance(v, SetV) and v.ety == ety and v.arr is not None and not v.arr.eq(target) and v.arr.get_id() not in seen:
                seen.add(v.arr.get_id())
                self.try_lemma(name, z3.ForAll([x], z3.Select(v.arr, x) == z3.Select(target, x)), v.arr == target)

    def safe(self, name, cond, line, exc):
        """partial operation: obligation, or a fork when an enclosing try handles exc"""
        for handlers in reversed(self.try_stack):
            if exc in handlers or "Exception" in handlers or "*" in handlers:
                if not self.decide_all(cond):
                    raise PyRaise(exc, line)
                return
        if exc in self.c.may_raise:
            if not self.decide_all(cond):
                raise PyRaise(exc, line)
            return
        if self.call_depth and not self.bound:
            pass
        self.prove(f"safe.{name}", cond, line, "safety")
        if self.bound:
            return
        self.pc.append(cond)

    # ---------------------------------------------------------------- function driver
    def run_function(self):
        c = self.c
        F = FnCtx(self)
        self.F = F
        args = c.make_args(self)
        names = [a.arg for a in self.fnode.args.posonlyargs + self.fnode.args.args]
        if self.fnode.args.vararg:
            names += [self.fnode.args.vararg.arg]
        if self.fnode.args.kwonlyargs:
            names += [a.arg for a in self.fnode.args.kwonlyargs]
        if self.fnode.args.kwarg:
            names += [self.fnode.args.kwarg.arg]
        F.args = []
        for i, nm in enumerate(names):
            if i < len(args):
                v = args[i]
            else:
                raise Mismatch(f"new parameter {nm}")
            self.env[nm] = v
            F.args.append(v)
        for nm, val in c.defaults.items():
            a = self.fnode.args
            ps = a.posonlyargs + a.args
            ds = dict([(p.arg, d) for p, d in zip(ps[len(ps) - len(a.defaults):], a.defaults)] + [(p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d])
            try:
                got = ast.literal_eval(ds[nm])
            except (KeyError, ValueError):
                raise Mismatch(f"default of {nm}")
            self.prove(f"default.{nm}", z3.BoolVal(type(got) is type(val) and got == val), self.fnode.lineno)
        memo = {}
        F.old = [clone(v, memo) for v in F.args]
        F.memo = memo
        for nm, f in c.requires(F):
            self.pc.append(f)
        self.req_len = len(self.pc)
        F.req = list(self.pc)
        if c.is_generator:
            c.init_yield(self, F)
        c.setup(self, F)
        res = NONE
        try:
            try:
                self.block(self.fnode.body)
            except PyReturn as r:
                res = r.val
        except PyRaise as e:
            for nm, f in c.on_raise(F, e.name):
                self.prove(f"raises.{e.name}.{nm}", f, e.line, "raises")
            if self.fresh_part:
                self.end_states.append((f"raise {e.name}", list(self.pc)))
            return
        F.result = res
        for nm, f in c.ensures(F, res):
            self.prove(f"ensures.{nm}", f, getattr(self.fnode, "lineno", 0), "post")
        if self.fresh_part:
            self.end_states.append(("return", list(self.pc)))

    # ---------------------------------------------------------------- statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} line {s.lineno}")
        self.line = s.lineno
        return m(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        pass

    def s_ImportFrom(self, s):
        pass

    def s_Global(self, s):
        raise Unsupported("global")

    def s_Return(self, s):
        raise PyReturn(self.ev(s.value) if s.value is not None else NONE)

    def s_Break(self, s):
        raise PyBreak()

    def s_Continue(self, s):
        raise PyContinue()

    def s_Assert(self, s):
        # a failing assert raises AssertionError
        t = self.truth(self.ev(s.test))
        if "AssertionError" in self.c.may_raise:
            if not self.decide(t):
                raise PyRaise("AssertionError", s.lineno)
        else:
            self.safe("assert", t, s.lineno, "AssertionError")

    def s_Raise(self, s):
        name = "Exception"
        if s.exc is None:
            name = getattr(self, "cur_exc", "Exception")
        else:
            e = s.exc
            if isinstance(e, ast.Call):
                e = e.func
            if isinstance(e, ast.Name):
                name = e.id
            elif isinstance(e, ast.Attribute):
                name = e.attr
        raise PyRaise(name, s.lineno)

    def s_If(self, s):
        if self.decide(self.truth(self.ev(s.test))):
            self.block(s.body)
        else:
            self.block(s.orelse)

    def s_Try(self, s):
        names = []
        for h in s.handlers:
            if h.type is None:
                names.append("*")
            elif isinstance(h.type, ast.Tuple):
                names += [getattr(t, "id", getattr(t, "attr", "?")) for t in h.type.elts]
            else:
                names.append(getattr(h.type, "id", getattr(h.type, "attr", "?")))
        self.try_stack.append(names)
        try:
            self.block(s.body)
        except PyRaise as e:
            self.try_stack.pop()
            for h in s.handlers:
                hn = ["*"] if h.type is None else \
                    [getattr(t, "id", getattr(t, "attr", "?")) for t in
                     (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                if e.name in hn or "*" in hn or "Exception" in hn:
                    prev = getattr(self, "cur_exc", None)
                    self.cur_exc = e.name
                    if h.name:
                        self.env[h.name] = OpaqueV("exception")
                    self.block(h.body)
                    self.cur_exc = prev
                    break
            else:
                if s.finalbody:
                    self.block(s.finalbody)
                raise
        except (PyReturn, PyBreak, PyContinue):
            self.try_stack.pop()
            if s.finalbody:
                self.block(s.finalbody)
            raise
        else:
            self.try_stack.pop()
            self.block(s.orelse)
        if s.finalbody:
            self.block(s.finalbody)

    def s_With(self, s):
        from . import lib
        vals = []
        for it in s.items:
            v = self.ev(it.context_expr)
            vals.append(v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        self.block(s.body)

    def s_FunctionDef(self, s):
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(s)):
            raise Unsupported("nested generator")
        self.env[s.name] = FnV("closure", node=s, env=self.env, module=self.module, self_=None)

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        from . import lib
        if isinstance(s.target, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(id=s.target.id, ctx=ast.Load()), s.target))
            r = lib.inplace(self, s.op, cur, self.ev(s.value), s.lineno)
            self.assign(s.target, r)
        elif isinstance(s.target, ast.Subscript):
            base = self.ev(s.target.value)
            key = self.ev_index(s.target.slice)
            cur = lib.getitem(self, base, key, s.lineno)
            r = lib.inplace(self, s.op, cur, self.ev(s.value), s.lineno)
            lib.setitem(self, base, key, r, s.lineno)
        elif isinstance(s.target, ast.Attribute):
            base = self.ev(s.target.value)
            cur = lib.getattr_(self, base, s.target.attr, s.lineno)
            r = lib.inplace(self, s.op, cur, self.ev(s.value), s.lineno)
            lib.setattr_(self, base, s.target.attr, r, s.lineno)
        else:
            raise Unsupported("augassign target")

    def s_Delete(self, s):
        from . import lib
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                lib.delitem(self, self.ev(t.value), self.ev_index(t.slice), s.lineno)
            elif isinstance(t, ast.Name):
                self.env.pop(t.id, None)
            else:
                raise Unsupported("del target")

    def assign(self, t, v):
        from . import lib
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts), t)
            for e, i in zip(t.elts, items):
                self.assign(e, i)
        elif isinstance(t, ast.Subscript):
            lib.setitem(self, self.ev(t.value), self.ev_index(t.slice), v, t.lineno)
        elif isinstance(t, ast.Attribute):
            lib.setattr_(self, self.ev(t.value), t.attr, v, t.lineno)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n, node):
        if any(isinstance(e, ast.Starred) for e in node.elts):
            raise Unsupported("starred unpack")
        if isinstance(v, TupV):
            if len(v.items) != n:
                raise PyRaise("ValueError", node.lineno)
            return v.items
        if isinstance(v, SeqV):
            self.safe("unpack", v.n == n, node.lineno, "ValueError")
            return [from_term(v.ety, z3.Select(v.arr, k)) for k in range(n)]
        raise Unsupported(f"unpack {type(v).__name__}")

    # ---------------------------------------------------------------- loops
    def snapshot(self):
        memo = {}
        return {k: clone(v, memo) for k, v in self.env.items()}, list(self.pc), self.cnt, dict(self.ghost), memo

    def roots_modified(self, body):
        """names assigned / mutated (syntactically) in body"""
        assigned, mutated = set(), set()

        def root(e):
            path = []
            while isinstance(e, (ast.Attribute, ast.Subscript)):
                path.append(e.attr if isinstance(e, ast.Attribute) else None)
                e = e.value
            if isinstance(e, ast.Name):
                return e.id, tuple(reversed(path))
            return None, ()

        for st in body:
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    assigned.add(n.id)
                elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    mutated.add(root(n))
                elif isinstance(n, ast.AugAssign):
                    r = root(n.target)
                    mutated.add(r)
                elif isinstance(n, ast.Call):
                    if isinstance(n.func, ast.Attribute):
                        if n.func.attr in MUTATORS:
                            mutated.add(root(n.func.value))
                        for a in self.world.mutated_args(self, n):
                            mutated.add(root(a))
                    elif isinstance(n.func, ast.Name):
                        for a in self.world.mutated_args(self, n):
                            mutated.add(root(a))
                        if n.func.id == "next":
                            mutated.add(root(n.args[0]))
                        if n.func.id in ("setattr", "delattr") and n.args:
                            r = root(n.args[0])
                            if r[0] is not None:
                                mutated.add((r[0], r[1] + ("__map__",)))
        mutated.discard((None, ()))
        return assigned, mutated

    def havoc_targets(self, body, tgt=None):
        """list of (name, attrpath) whose value may change"""
        assigned, mutated = self.roots_modified(body)
        if tgt is not None:
            for n in ast.walk(tgt):
                if isinstance(n, ast.Name):
                    assigned.add(n.id)
        return assigned, mutated

    def s_For(self, s):
        itv = self.ev(s.iter)
        if isinstance(itv, TupV):   # concrete length: unroll
            broke = False
            for x in itv.items:
                self.assign(s.target, x)
                try:
                    self.block(s.body)
                except PyContinue:
                    continue
                except PyBreak:
                    broke = True
                    break
            if not broke:
                self.block(s.orelse)
            return
        n, get, ety = self.view(itv)
        self.loop(s, n, get, s.target, None, itv)

    def s_While(self, s):
        self.loop(s, None, None, None, s.test, None)

    def loop(self, s, n, get, target, test, itv):
        ordn = self.static_ord(s)
        assigned, mutated = self.havoc_targets(s.body, target)
        L = LoopCtx(self, s, n, get, itv, test)
        spec = self.c.loop_spec(L, ordn, self.call_depth)
        if self.typing:
            spec = None
        L.spec = spec
        # typing run: discover the types of containers modified in the loop
        self.typing_run(s, n, get, target, test, assigned, mutated)
        L.entry, _, _, L.ghost_entry, L.memo = self.snapshot()
        memo_entry = L.memo
        L.ghost0 = dict(self.ghost)
        if spec is None and not self.typing:
            self.degraded.append(f"{self.c.name}: loop at line {s.lineno} has no invariant")
        invs = lambda i: (spec.inv(L, i) if spec is not None else [])
        i0 = z3.IntVal(0)
        for nm, f in invs(i0):
            self.prove(f"inv-init.{nm}", f, s.lineno, "inv")
        new_names = [a for a in sorted(assigned) if a not in self.env]
        used_after = self.names_used_after(s)
        need_last = [a for a in new_names if a in used_after]
        d = self.choose()
        lo_end = self.loop_ord
        if d == 0 or need_last:
            mode = "step" if d == 0 else ("last" if self.choose() == 0 else "zero")
        else:
            mode = "exit"
        if mode == "zero":
            # no iteration at all: the entry state
            if n is not None:
                self.pc.append(n <= 0)
            else:
                self.pc.append(z3.Not(self.truth(self.ev(test))))
            self.block(s.orelse)
            return
        pre = {k: (v, self.state_of(v)) for k, v in self.reachable_values().items()}
        self.havoc(assigned, mutated, L)
        if mode == "exit":
            if n is not None:
                i = n    # views have non-negative length
                L.i = i
                for nm, f in invs(i):
                    self.pc.append(f)
            else:
                i = self.fresh("iter", z3.IntSort())
                self.pc.append(i >= 0)
                L.i = i
                for nm, f in invs(i):
                    self.pc.append(f)
                self.pc.append(z3.Not(self.truth(self.ev(test))))
            self.block(s.orelse)
            return
        # step / last iteration
        if n is not None and mode == "last":
            i = n - 1
            self.pc.append(n > 0)
        else:
            i = self.fresh("iter", z3.IntSort())
            self.pc.append(i >= 0)
            if n is not None:
                self.pc.append(i < n)
        L.i = i
        for nm, f in invs(i):
            self.pc.append(f)
        if test is not None:
            self.pc.append(self.truth(self.ev(test)))
        dec0 = spec.decreases(L) if spec is not None and test is not None else None
        frame = self.frame(pre)
        if target is not None:
            self.assign(target, get(i))
        if spec is not None:
            spec.at_body(L, i)
        try:
            self.block(s.body)
        except PyContinue:
            pass
        except PyBreak:
            if mode == "last":
                raise PathEnd()   # explored by the step mode
            return   # leaves the loop (step mode explores it)
        except (PyReturn, PyRaise):
            if mode == "last":
                raise PathEnd()
            raise
        if mode == "step":
            self.frame_kept(frame, s)
            L.i = i + 1
            for nm, f in invs(i + 1):
                self.prove(f"inv-keep.{nm}", f, s.lineno, "inv")
            if dec0 is not None:
                dec1 = spec.decreases(L)
                self.prove("decreases", z3.And(dec0 >= 0, dec1 < dec0), s.lineno, "term")
            if self.fresh_part:
                self.end_states.append((f"loop{s.lineno}", list(self.pc)))
            raise PathEnd()
        # last: the loop is over
        if n is None:
            L.i = i + 1
            for nm, f in invs(i + 1):
                self.pc.append(f)     # established by the step obligation
            self.pc.append(z3.Not(self.truth(self.ev(test))))
        else:
            L.i = n
            for nm, f in invs(n):
                self.pc.append(f)
        self.block(s.orelse)

    @staticmethod
    def state_of(v):
        """the contents of a mutable value, as comparable parts"""
        if isinstance(v, SetV):
            return (v.arr,) if v.ety is not None else ()
        if isinstance(v, SeqV):
            return (v.n, v.arr) if v.ety is not None else ()
        if isinstance(v, MapV):
            return (v.dom, v.arr) if v.kty is not None else ()
        if isinstance(v, GenV):
            return (v.pos,)
        if isinstance(v, RecV):
            return tuple(x for k in sorted(v.attrs) for x in ((k, v.attrs[k].term) if isinstance(v.attrs[k], Sc) else (k,)))
        return ()

    @staticmethod
    def same_state(a, b):
        if not a or not b:
            return True
        return len(a) == len(b) and all(x.eq(y) if z3.is_expr(x) and z3.is_expr(y) else x is y or x == y for x, y in zip(a, b))

    def reachable_values(self):
        out, todo = {}, [v for v in self.env.values()] + list(self.F.args)
        while todo:
            v = todo.pop()
            if v is None or id(v) in out or not isinstance(v, V):
                continue
            out[id(v)] = v
            if isinstance(v, TupV):
                todo += v.items
            elif isinstance(v, RecV):
                todo += list(v.attrs.values())
            elif isinstance(v, FnV):
                todo += [x for x in v.__dict__.values() if isinstance(x, V)]
                e = v.__dict__.get("env")
                if e is not None:
                    todo += list(e.values())
        return out

    def frame(self, pre):
        """values that existed at loop entry and were not given up as changing: what the body must leave alone"""
        out = []
        for v, s0 in pre.values():
            st = self.state_of(v)
            if not st or not self.same_state(s0, st):
                continue              # havocked
            if not s0 and not z3.is_int_value(st[0]) and not z3.is_K(st[0]):
                continue              # untyped (empty) at entry, and havocked
            out.append((v, st))
        return out

    def frame_kept(self, frame, s):
        for v, st in frame:
            if not self.same_state(st, self.state_of(v)):
                raise Unsupported(f"the loop at line {s.lineno} changes a {type(v).__name__} the generator did not expect to change")

    def static_ord(self, s):
        fn = self.cur_fn_node()
        loops = [x for x in ast.walk(fn) if isinstance(x, (ast.For, ast.While))]
        loops.sort(key=lambda x: (x.lineno, x.col_offset))
        for k, x in enumerate(loops):
            if x is s:
                return k
        return -1

    def names_used_after(self, s):
        end = s.end_lineno
        fn = self.cur_fn_node()
        return {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)
                and n.lineno > end}

    def cur_fn_node(self):
        return self.fn_stack[-1] if getattr(self, "fn_stack", None) else self.fnode

    def resolve_path(self, root, path):
        if root not in self.env:
            return None
        v = self.env[root]
        for a in path:
            if a is None:     # element of a container: the container itself is modified
                return v
            if isinstance(v, RecV):
                if a not in v.attrs:
                    return None
                v = v.attrs[a]
            else:
                return v
        return v

    def havoc(self, assigned, mutated, L):
        done = set()
        for root, path in sorted(mutated, key=str):
            v = self.resolve_path(root, path)
            if v is None or id(v) in done:
                continue
            # attribute rebinding  self.x = ...
            if path and path[-1] is not None:
                owner = self.resolve_path(root, path[:-1])
                if isinstance(owner, RecV) and path[-1] in owner.attrs:
                    if isinstance(owner.attrs[path[-1]], (SetV, SeqV, MapV, GenV, RecV)):
                        self.havoc_in_place(owner.attrs[path[-1]])
                    else:
                        owner.attrs[path[-1]] = self.havoc_new(path[-1], owner.attrs[path[-1]])
                    continue
            done.add(id(v))
            if root in assigned and not path:
                if isinstance(v, (SetV, SeqV, MapV)):
                    self.havoc_in_place(v)      # changed through another name as well
                continue
            self.havoc_in_place(v)
        for a in sorted(assigned):
            if a in self.env:
                self.env[a] = self.havoc_new(a, self.env[a])
        self.c.havoc_ghost(self, L)

    def havoc_in_place(self, v):
        if isinstance(v, SetV):
            if v.ety is None:
                return
            v.arr = self.fresh("set", v.arr.sort())
            v.enum = None
        elif isinstance(v, SeqV):
            if v.ety is None:
                return
            v.n = self.fresh("n", z3.IntSort())
            v.arr = self.fresh("arr", v.arr.sort())
            self.pc.append(v.n >= 0)
        elif isinstance(v, MapV):
            if v.kty is None:
                return
            v.dom = self.fresh("dom", v.dom.sort())
            v.arr = self.fresh("val", v.arr.sort())
            v.order = None
            from . import lib
            lib.stale(self, v, v)      # values sharing storage with its elements
        elif isinstance(v, GenV):
            p = self.fresh("pos", z3.IntSort())
            self.pc.append(z3.And(p >= v.pos, p <= v.n))
            v.pos = p
        elif isinstance(v, (Sc, NoneV, StrV, OpaqueV)):
            pass
        elif isinstance(v, RecV):
            for k in list(v.attrs):
                if isinstance(v.attrs[k], Sc):
                    v.attrs[k] = self.havoc_new(k, v.attrs[k])
                else:
                    self.havoc_in_place(v.attrs[k])
        elif isinstance(v, TupV):
            raise Unsupported("mutation of a fixed-length list in a loop")
        elif isinstance(v, FnV):
            pass
        else:
            raise Unsupported(f"havoc {type(v).__name__}")

    def havoc_new(self, name, v):
        if isinstance(v, Sc):
            return Sc(v.ty, self.fresh(name, v.ty.sort()))
        if isinstance(v, (SetV, SeqV, MapV)):
            if v.ty is None:
                return clone(v, {})
            r = self.fresh_val(name, v.ty)
            for a in ("frozen", "kind", "default"):
                if hasattr(v, a):
                    setattr(r, a, getattr(v, a))
            return r
        if isinstance(v, TupV):
            return TupV([self.havoc_new(name, i) for i in v.items], v.kind)
        if isinstance(v, (NoneV,)):
            # may become something else: see typing_run
            return OpaqueV("havocked None")
        if isinstance(v, StrV):
            return Sc(OBJ, self.fresh(name, OBJ_SORT))
        if isinstance(v, OpaqueV):
            return OpaqueV(v.why)
        if isinstance(v, FnV):
            return v
        if isinstance(v, GenV):
            g = GenV(v.n, v.get, v.pos, v.ety, v.wrap)
            self.havoc_in_place(g)
            return g
        if isinstance(v, RecV):
            raise Unsupported("rebinding an object in a loop")
        raise Unsupported(f"havoc {type(v).__name__}")

    def typing_run(self, s, n, get, target, test, assigned, mutated):
        """execute the body once (all its paths) without obligations, only to learn the
        element types of containers that are still empty and untyped at loop entry, and
        int/real widening of scalars."""
        untyped = [k for k in self.env if self._untyped(self.env[k])]
        widen = [k for k in assigned if isinstance(self.env.get(k), (Sc, NoneV))]
        selfish = [v for v in self.env.values() if isinstance(v, RecV)]
        if not untyped and not widen and not any(self._untyped(a) for r in selfish for a in r.attrs.values()):
            return
        if self.typing > 3:
            return
        ckey = None
        if self.typing == 0:
            ckey = (id(s), self.call_depth, tuple(untyped), tuple(sorted((k, repr(self.env[k].ty)) for k in widen)),
                    tuple((k, a) for k, r in sorted(self.env.items()) if isinstance(r, RecV) for a in sorted(r.attrs) if self._untyped(r.attrs[a])))
            if ckey in self.typed:
                where, wtypes = self.typed[ckey]
                for (k, a), ty in where:
                    settle(self.env[k] if a is None else self.env[k].attrs[a], ty)
                self.apply_widening(wtypes)
                return
        self.typing += 1
        saved = (self.trace, self.tpos, self.forced, self.env, list(self.pc), self.cnt, dict(self.ghost),
                 list(self.degraded), self.loop_ord, list(self.try_stack), list(self.bound), self.call_depth)
        live = dict(self.env)
        g0 = dict(self.F.g)
        types, wtypes = {}, {}
        try:
            work, cnt = [[]], 0
            while work and cnt < (24 if self.typing == 1 else 8):
                cnt += 1
                tr = work.pop()
                memo = {}
                self.env = {k: clone(v, memo) for k, v in live.items()}
                inv_memo = {id(r[1]): r[0] for r in memo.values()}
                self.pc, self.cnt, self.ghost = list(saved[4]), saved[5] + 100000 * self.typing, dict(saved[6])
                self.trace, self.tpos, self.forced = tr, 0, len(tr)
                self.loop_ord, self.try_stack, self.bound = saved[8], list(saved[9]), list(saved[10])
                try:
                    if target is not None:
                        self.assign(target, get(self.fresh("ti", z3.IntSort())))
                    elif test is not None:
                        self.ev(test)
                    self.block(s.body)
                except (PathEnd, PyBreak, PyContinue, PyReturn, PyRaise, Unsupported, z3.Z3Exception):
                    pass
                for o, cl in memo.values():
                    if self._untyped(o) and not self._untyped(cl):
                        types[id(o)] = (o, cl.ty)
                for k in widen:
                    nv = self.env.get(k)
                    if nv is not None and not isinstance(nv, NoneV):
                        wtypes.setdefault(k, []).append(nv.ty)
                for k in range(len(self.trace) - 1, self.forced - 1, -1):
                    if self.trace[k][1]:
                        work.append(self.trace[:k] + [(1 - self.trace[k][0], False)])
        finally:
            (self.trace, self.tpos, self.forced, self.env, self.pc, self.cnt, self.ghost,
             self.degraded, self.loop_ord, self.try_stack, self.bound, self.call_depth) = saved
            self.F.g.clear()
            self.F.g.update(g0)
            self.typing -= 1
        where = []
        for o, ty in types.values():
            loc = [(k, None) for k, v in self.env.items() if v is o] + [
                (k, a) for k, r in self.env.items() if isinstance(r, RecV) for a, v in r.attrs.items() if v is o]
            where.append((loc[0] if loc else None, ty))
            settle(o, ty)
        if ckey is not None and all(l is not None for l, _ in where):
            self.typed[ckey] = (where, wtypes)
        self.apply_widening(wtypes)

    def apply_widening(self, wtypes):
        for k, tys in wtypes.items():
            v = self.env[k]
            if isinstance(v, Sc) and v.ty == INT and REAL in tys:
                self.env[k] = Sc(REAL, z3.ToReal(v.term))
            elif isinstance(v, Sc) and v.ty == BOOL and (INT in tys):
                self.env[k] = Sc(INT, coerce_term(v, INT))
            elif isinstance(v, NoneV):
                raise Unsupported(f"variable {k} is None or a value across loop iterations")

    @staticmethod
    def _untyped(v):
        return isinstance(v, (SetV, SeqV, MapV)) and v.ty is None

    # ---------------------------------------------------------------- views of iterables
    def view(self, v):
        """(length, get(i) -> V, element type) of an iterable"""
        if isinstance(v, SeqV):
            n, arr, ety = v.n, v.arr, v.ety
            if ety is None:
                return z3.IntVal(0), (lambda i: OpaqueV("empty")), None
            tnt = getattr(v, "taint", frozenset())

            def get(i):
                r = from_term(ety, z3.Select(arr, i))
                if tnt and not isinstance(r, Sc):
                    r.taint = tnt
                return r
            return n, get, ety
        if isinstance(v, SetV):
            if v.ety is None:
                return z3.IntVal(0), (lambda i: OpaqueV("empty")), None
            n, get, inv = self.enum_set(v.arr, v.ety)
            return n, get, v.ety
        if isinstance(v, MapV):
            if v.kty is None:
                return z3.IntVal(0), (lambda i: OpaqueV("empty")), None
            n, get, inv = self.enum_map(v)
            return n, get, v.kty
        if isinstance(v, RangeV):
            st, sp, k = v.start, v.stop, v.step
            if not z3.is_int_value(k) or k.as_long() == 0:
                raise Unsupported("range step")
            kk = k.as_long()
            cnt = (sp - st + (kk - 1)) / kk if kk > 0 else (st - sp + (-kk - 1)) / (-kk)
            cnt = z3.If(cnt > 0, cnt, z3.IntVal(0))
            return z3.simplify(cnt), (lambda i: Sc(INT, z3.simplify(st + i * kk))), INT
        if isinstance(v, GenV):
            if v.wrap is not None:
                raise Unsupported("iteration over takewhile")
            pos = v.pos
            n = z3.simplify(v.n - pos)
            g = v.get
            v.pos = v.n   # consumed
            return n, (lambda i: g(z3.simplify(pos + i))), v.ety
        if isinstance(v, TupV):
            return self.view(tup_to_seq(v))
        if isinstance(v, FnV) and v.kind == "keysview":
            return self.view(v.map)
        raise Unsupported(f"iteration over {type(v).__name__}")

    def enum_set(self, arr, ety):
        """an arbitrary enumeration (without repetition) of a finite set"""
        key = (arr.get_id(), ety.key, tuple(id(b) for b in self.bound))
        cache = self.ghost.setdefault("enum", {})
        n = self.fresh("card", z3.IntSort())
        e = self.fresh("enum", z3.ArraySort(z3.IntSort(), ety.sort()))
        inv = self.fresh_fn("pos", ety.sort(), z3.IntSort())
        j = self.bvar("j", z3.IntSort())
        x = self.bvar("x", ety.sort())
        self.assume(n >= 0)
        self.assume(self.forall([j], z3.Implies(z3.And(0 <= j, j < n),
                                                z3.And(z3.Select(arr, z3.Select(e, j)), inv(z3.Select(e, j)) == j)),
                                [z3.Select(e, j)]))
        self.assume(self.forall([x], z3.Implies(z3.Select(arr, x),
                                                z3.And(0 <= inv(x), inv(x) < n, z3.Select(e, inv(x)) == x)),
                                [z3.Select(arr, x)] if not z3.is_quantifier(arr) else None))
        self.last_enum = (n, e, inv)
        self.assume(n == self.card(arr, ety))
        return n, (lambda i: from_term(ety, z3.Select(e, i))), inv

    def card(self, arr, ety):
        t = theory.card_fn(ety)(arr)
        self.assume(t >= 0)      # values of the program are finite
        return t

    def enum_map(self, m):
        if m.order is not None:
            n, arr = m.order
            known = getattr(m, "order_inv", None)
            self.last_enum_map = m
            if known is not None and known[0].eq(arr):
                self.last_enum = (n, arr, known[1])
            return n, (lambda i: from_term(m.kty, z3.Select(arr, i))), None
        n, get, inv = self.enum_set(m.dom, m.kty)
        m.order = (n, self.last_enum[1])
        m.order_inv = (self.last_enum[1], inv)
        self.last_enum_map = m
        return n, get, inv

    # ---------------------------------------------------------------- expressions
    def ev(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} line {getattr(e, 'lineno', 0)}")
        return m(e)

    def ev_index(self, e):
        if isinstance(e, ast.Slice):
            f = lambda x: self.ev(x) if x is not None else NONE
            return FnV("slice", lo=f(e.lower), hi=f(e.upper), step=f(e.step))
        if isinstance(e, ast.Tuple):
            return TupV([self.ev_index(x) for x in e.elts])
        return self.ev(e)

    def e_Constant(self, e):
        return self.const(e.value)

    def const(self, v):
        if v is None:
            return NONE
        if isinstance(v, bool):
            return Sc(BOOL, z3.BoolVal(v), py=v)
        if isinstance(v, int):
            return Sc(INT, z3.IntVal(v), py=v)
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                return OpaqueV("inf")
            from fractions import Fraction
            fr = Fraction(v)
            return Sc(REAL, z3.RealVal(fr), py=v)
        if isinstance(v, str):
            return StrV(v)
        return OpaqueV(f"constant {v!r}")

    def e_JoinedStr(self, e):
        parts = []
        for p in e.values:
            if isinstance(p, ast.FormattedValue):
                parts.append(self.ev(p.value))
            else:
                parts.append(self.const(p.value))
        return self.world.lib.format_string(self, parts)

    def e_Name(self, e):
        if e.id in self.env:
            v = self.env[e.id]
            if v is None:
                raise Unsupported(f"unbound {e.id}")
            return v
        if self.is_local(e.id) and not self.typing and not self.bound:
            # a local that is not bound on this path: the path must be impossible
            self.prove("safe.unbound-local", z3.BoolVal(False), e.lineno, "safety")
            raise PathEnd()
        return self.world.global_name(self, e.id, self.module)

    def is_local(self, name):
        fn = self.cur_fn_node()
        if not isinstance(fn, ast.FunctionDef):
            return False
        if id(fn) not in _LOCALS:
            _LOCALS[id(fn)] = (fn, {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)})
        return name in _LOCALS[id(fn)][1]

    def e_Tuple(self, e):
        return TupV([self.ev(x) for x in e.elts])

    def e_List(self, e):
        if not e.elts:
            return SeqV(None, z3.IntVal(0), None)
        if any(isinstance(x, ast.Starred) for x in e.elts):
            raise Unsupported("starred list")
        t = TupV([self.ev(x) for x in e.elts], "list")
        try:
            if all(not isinstance(i, (Sc, StrV)) for i in t.items):
                return tup_to_seq(t)
            return tup_to_seq(t)
        except Unsupported:
            return t

    def e_Set(self, e):
        items = [self.ev(x) for x in e.elts]
        ety = items[0].ty
        arr = z3.K(ety.sort(), z3.BoolVal(False))
        for i in items:
            arr = z3.Store(arr, coerce_term(i, ety), z3.BoolVal(True))
        return SetV(ety, arr)

    def e_Dict(self, e):
        if not e.keys:
            return MapV(None, None, None, None)
        if any(k is None for k in e.keys):
            return self.world.lib.dict_merge(self, [(self.ev(k) if k is not None else None, self.ev(v))
                                                    for k, v in zip(e.keys, e.values)])
        ks = [self.ev(k) for k in e.keys]
        vs = [self.ev(v) for v in e.values]
        if all(isinstance(k, StrV) for k in ks) and not (self.c.text_keyed_maps and all(isinstance(v, Sc) for v in vs)):
            return RecV("dict", {k.s: v for k, v in zip(ks, vs)})
        m = MapV(None, None, None, None)
        for k, v in zip(ks, vs):
            self.world.lib.setitem(self, m, k, v, e.lineno)
        return m

    def e_Lambda(self, e):
        return FnV("closure", node=e, env=self.env, module=self.module, self_=None)

    def e_IfExp(self, e):
        c = self.truth(self.ev(e.test))
        cs = z3.simplify(c)
        if z3.is_true(cs):
            return self.ev(e.body)
        if z3.is_false(cs):
            return self.ev(e.orelse)
        if not self.bound:
            return self.ev(e.body) if self.decide(c) else self.ev(e.orelse)
        self.bound.append(([], [c])) if False else None
        a = self.guarded(c, lambda: self.ev(e.body))
        b = self.guarded(z3.Not(c), lambda: self.ev(e.orelse))
        return self.merge(c, a, b)

    def guarded(self, cond, f):
        """evaluate f() under an extra local assumption (short-circuit evaluation)"""
        if self.bound:
            vs, gs = self.bound[-1]
            self.bound[-1] = (vs, gs + [cond])
            try:
                return f()
            finally:
                self.bound[-1] = (vs, gs)
        # definitions introduced by f hold unconditionally (they are definitional);
        # safety obligations are proved under cond
        self.pc.append(cond)
        k = len(self.pc)
        try:
            r = f()
        finally:
            tail = self.pc[k:]
            del self.pc[k - 1:]
            self.pc += [z3.Implies(cond, t) for t in tail]
        return r

    def merge(self, c, a, b):
        if isinstance(a, (Sc, StrV)) and isinstance(b, (Sc, StrV)):
            if a.ty == b.ty:
                return Sc(a.ty, z3.If(c, a.term, b.term))
            if {a.ty, b.ty} <= {INT, REAL, BOOL}:
                ty = REAL if REAL in (a.ty, b.ty) else INT
                return Sc(ty, z3.If(c, coerce_term(a, ty), coerce_term(b, ty)))
        if a.ty is None and b.ty is not None:
            settle(a, b.ty)
        if b.ty is None and a.ty is not None:
            settle(b, a.ty)
        if a.ty is not None and a.ty == b.ty:
            r = from_term(a.ty, z3.If(c, to_term(a), to_term(b)))
            return r
        raise Unsupported("merge of different types")

    def e_BoolOp(self, e):
        is_and = isinstance(e.op, ast.And)
        vals = [self.ev(e.values[0])]
        v = vals[0]
        for x in e.values[1:]:
            c = self.truth(v)
            if isinstance(v, (Sc,)) and v.ty == BOOL:
                cs = z3.simplify(c)
                if z3.is_true(cs):
                    if is_and:
                        v = self.ev(x)
                        continue
                    return v
                if z3.is_false(cs):
                    if not is_and:
                        v = self.ev(x)
                        continue
                    return v
                if self.can_term(x):
                    w = self.guarded(c if is_and else z3.Not(c), lambda: self.ev(x))
                    if isinstance(w, Sc) and w.ty == BOOL:
                        v = Sc(BOOL, z3.And(c, w.term) if is_and else z3.Or(c, w.term))
                        continue
                    if self.bound:
                        tw = self.truth(w)
                        v = Sc(BOOL, z3.And(c, tw) if is_and else z3.Or(c, tw))
                        continue
                    raise Unsupported("mixed boolean operation")
            # general: fork
            if self.decide(c) == is_and:
                v = self.ev(x)
            else:
                return v
        return v

    def can_term(self, x):
        """x can be evaluated without forking (no calls that may branch)"""
        for n in ast.walk(x):
            if isinstance(n, ast.Call):
                f = n.func
                nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
                if nm not in ("len", "isinstance", "any", "all", "issubset", "issuperset", "isdisjoint", "map", "set",
                              "abs", "min", "max", "intersection_cardinality", "callable", "hasattr", "values", "keys",
                              "items", "range"):
                    return False
            if isinstance(n, (ast.IfExp,)) and not self.bound:
                return False
        return True

    def truth(self, v):
        if isinstance(v, Sc):
            if v.ty == BOOL:
                return v.term
            if v.ty in (INT, REAL):
                return v.term != 0
            f = z3.Function("truthy", OBJ_SORT, z3.BoolSort())
            return f(v.term)
        if isinstance(v, NoneV):
            return z3.BoolVal(False)
        if isinstance(v, StrV):
            return z3.BoolVal(bool(v.s))
        if isinstance(v, SetV):
            if v.ety is None:
                return z3.BoolVal(False)
            x = self.bvar("x", v.ety.sort())
            return z3.Exists([x], z3.Select(v.arr, x))
        if isinstance(v, SeqV):
            return v.n > 0
        if isinstance(v, MapV):
            if v.kty is None:
                return z3.BoolVal(False)
            x = self.bvar("x", v.kty.sort())
            return z3.Exists([x], z3.Select(v.dom, x))
        if isinstance(v, TupV):
            return z3.BoolVal(bool(v.items))
        if isinstance(v, (FnV, GenV)):
            return z3.BoolVal(True)
        if isinstance(v, RecV):
            if v.cls == "dict":
                return z3.BoolVal(bool(v.attrs))
            return z3.BoolVal(True)
        if isinstance(v, OpaqueV):
            return self.fresh("cond", z3.BoolSort())
        raise Unsupported(f"truth of {type(v).__name__}")

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return Sc(BOOL, z3.Not(self.truth(v)))
        if isinstance(e.op, ast.USub):
            if isinstance(v, Sc) and v.ty in (INT, REAL):
                return Sc(v.ty, z3.simplify(-v.term))
            return self.world.lib.unary(self, "neg", v)
        if isinstance(e.op, ast.UAdd):
            return v
        return self.world.lib.unary(self, "invert", v)

    def e_BinOp(self, e):
        return self.world.lib.binop(self, e.op, self.ev(e.left), self.ev(e.right), e.lineno)

    def e_Compare(self, e):
        left = self.ev(e.left)
        terms = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            t = self.world.lib.compare(self, op, left, right, e.lineno)
            if not isinstance(t, Sc):
                if len(e.ops) == 1:
                    return t
                raise Unsupported("chained comparison of containers")
            terms.append(t.term)
            left = right
        return Sc(BOOL, terms[0] if len(terms) == 1 else z3.And(*terms))

    def e_Subscript(self, e):
        return self.world.lib.getitem(self, self.ev(e.value), self.ev_index(e.slice), e.lineno)

    def e_Attribute(self, e):
        return self.world.lib.getattr_(self, self.ev(e.value), e.attr, e.lineno)

    def e_Call(self, e):
        return self.world.call(self, e)

    def e_Starred(self, e):
        raise Unsupported("starred")

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.env[e.target.id] = v
        return v

    def e_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else NONE
        self.c.on_yield(self, self.F, v, e.lineno)
        return NONE

    def e_YieldFrom(self, e):
        self.c.on_yield_from(self, self.F, self.ev(e.value), e.lineno)
        return NONE

    # comprehensions -----------------------------------------------------
    def e_ListComp(self, e):
        return self.comp_seq(e)

    def e_GeneratorExp(self, e):
        s = self.comp_seq(e)
        if isinstance(s, GenV):
            return s
        n, get, ety = self.view(s)
        g = GenV(n, get, z3.IntVal(0), ety)
        g.seq = s
        g.taint = getattr(s, "taint", frozenset())
        return g

    def e_SetComp(self, e):
        s = self.comp_seq(e)
        return self.world.lib.seq_to_set(self, s)

    def with_target(self, target, v):
        names = [n.id for n in ast.walk(target) if isinstance(n, ast.Name)]
        saved = {n: self.env.get(n, "__none__") for n in names}
        self.assign(target, v)
        return saved

    def restore(self, saved):
        for k, v in saved.items():
            if isinstance(v, str) and v == "__none__":
                self.env.pop(k, None)
            else:
                self.env[k] = v

    def comp_seq(self, e):
        """[elt for target in iter if conds]  as a sequence"""
        if len(e.generators) == 2:
            return self.comp_nested(e)
        if len(e.generators) != 1:
            raise Unsupported("comprehension with more than two generators")
        g = e.generators[0]
        itv = self.ev(g.iter)
        if isinstance(itv, TupV):
            if not g.ifs:
                out = []
                for x in itv.items:
                    sv = self.with_target(g.target, x)
                    try:
                        out.append(self.ev(e.elt))
                    finally:
                        self.restore(sv)
                t = TupV(out, "list")
                try:
                    return tup_to_seq(t) if out else t
                except Unsupported:
                    return t
            itv = tup_to_seq(itv)
        n, get, ety = self.view(itv)
        if ety is None:
            return SeqV(None, z3.IntVal(0), None)
        return self.map_filter(n, get, g.target, g.ifs, lambda: self.ev(e.elt),
                               ident=isinstance(e.elt, ast.Name) and isinstance(g.target, ast.Name)
                               and e.elt.id == g.target.id)

    def map_filter(self, n, get, target, ifs, elt, ident=False):
        j = self.bvar("j", z3.IntSort())
        outer = list(self.bound)
        # element and condition as terms over j
        self.bound.append(([j], [0 <= j, j < n]))
        saved = None
        try:
            x = get(j)
            saved = self.with_target(target, x) if target is not None else {}
            conds = []
            for c in ifs:
                t = self.truth(self.ev(c))
                conds.append(t)
                vs, gs = self.bound[-1]
                self.bound[-1] = (vs, gs + [t])
            v = elt()
            tnt = getattr(v, "taint", frozenset())
            if isinstance(v, (OpaqueV, RecV, FnV, GenV, NoneV)):
                term = None
                vty = None
            else:
                if v.ty is None:
                    raise Unsupported("comprehension element of unknown type")
                term, vty = to_term(v), v.ty
        finally:
            self.bound[:] = outer
            if saved is not None:
                self.restore(saved)
        if term is None:
            return OpaqueV("list of opaque values")
        cond = z3.And(*conds) if conds else None
        if cond is None or z3.is_true(z3.simplify(cond)):
            arr = self.fresh("map", z3.ArraySort(z3.IntSort(), vty.sort()))
            self.forall2([j], z3.Implies(z3.And(0 <= j, j < n), z3.Select(arr, j) == term),
                         [z3.Select(arr, j)], self.src_pattern(get, j))
            r = SeqV(vty, n, arr)
            r.srcmap = lambda k: k
            if not outer:
                r.defn = (j, term, arr)
        else:
            m = self.fresh("fn", z3.IntSort())
            arr = self.fresh("filt", z3.ArraySort(z3.IntSort(), vty.sort()))
            src = self.fresh_fn("src", z3.IntSort(), z3.IntSort())
            dst = self.fresh_fn("dst", z3.IntSort(), z3.IntSort())
            k, k2 = self.bvar("k", z3.IntSort()), self.bvar("k", z3.IntSort())
            sub = lambda t, y: z3.substitute(t, (j, y))
            self.assume(z3.And(0 <= m, m <= n))
            self.assume(self.forall([k], z3.Implies(z3.And(0 <= k, k < m), z3.And(
                0 <= src(k), src(k) < n, sub(cond, src(k)), z3.Select(arr, k) == sub(term, src(k)),
                dst(src(k)) == k)), [z3.Select(arr, k)]))
            self.assume(self.forall([k], z3.Implies(z3.And(0 <= k, k < m), z3.And(
                0 <= src(k), src(k) < n, sub(cond, src(k)), z3.Select(arr, k) == sub(term, src(k)),
                dst(src(k)) == k)), [src(k)]))
            self.assume(self.forall([k, k2], z3.Implies(z3.And(0 <= k, k < k2, k2 < m), src(k) < src(k2)),
                                    [z3.MultiPattern(src(k), src(k2))]))
            # completeness: every j satisfying the condition is selected
            pats = self.term_patterns(term, cond, j)
            self.assume(self.forall([j], z3.Implies(z3.And(0 <= j, j < n, cond), z3.And(
                0 <= dst(j), dst(j) < m, src(dst(j)) == j)), pats))
            r = SeqV(vty, m, arr)
            r.srcmap = src
            r.dstmap = dst
        if tnt:
            r.taint = tnt
        return r

    def term_patterns(self, term, cond, j):
        """a trigger mentioning j: an array read or function application on j"""
        found = []

        def walk(t, d=0):
            if d > 8 or found:
                return
            if z3.is_app(t):
                if t.num_args() and any(a.eq(j) for a in t.children()) and t.decl().kind() in (
                        z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED):
                    found.append(t)
                    return
                for a in t.children():
                    walk(a, d + 1)
        walk(term)
        walk(cond)
        return [found[0]] if found else None

    def comp_nested(self, e):
        """[elt for a in A for b in B]: pairs in row-major order"""
        g1, g2 = e.generators
        if g1.ifs or g2.ifs:
            raise Unsupported("filter in nested comprehension")
        n1, get1, t1 = self.view(self.ev(g1.iter))
        if t1 is None:
            return SeqV(None, z3.IntVal(0), None)
        names1 = {n.id for n in ast.walk(g1.target) if isinstance(n, ast.Name)}
        dep = any(isinstance(x, ast.Name) and x.id in names1 for x in ast.walk(g2.iter))
        i, j = self.bvar("i", z3.IntSort()), self.bvar("j", z3.IntSort())
        outer = list(self.bound)
        if not dep:
            n2, get2, t2 = self.view(self.ev(g2.iter))
            if t2 is None:
                return SeqV(None, z3.IntVal(0), None)
        saved1 = saved2 = None
        self.bound.append(([i], [0 <= i, i < n1]))
        try:
            saved1 = self.with_target(g1.target, get1(i))
            if dep:
                n2, get2, t2 = self.view(self.ev(g2.iter))
                if t2 is None:
                    raise Unsupported("nested empty")
            self.bound[-1] = ([i, j], [0 <= i, i < n1, 0 <= j, j < n2])
            saved2 = self.with_target(g2.target, get2(j))
            v = self.ev(e.elt)
            if v.ty is None:
                raise Unsupported("element type")
            term, vty = to_term(v), v.ty
        finally:
            self.bound[:] = outer
            if saved2 is not None:
                self.restore(saved2)
            if saved1 is not None:
                self.restore(saved1)
        m = self.fresh("nn", z3.IntSort())
        arr = self.fresh("prod", z3.ArraySort(z3.IntSort(), vty.sort()))
        I_ = self.fresh_fn("rowof", z3.IntSort(), z3.IntSort())
        J_ = self.fresh_fn("colof", z3.IntSort(), z3.IntSort())
        K_ = self.fresh_fn("cell", z3.IntSort(), z3.IntSort(), z3.IntSort())
        k = self.bvar("k", z3.IntSort())
        sub = lambda t: z3.substitute(t, (i, I_(k)), (j, J_(k)))
        self.assume(m >= 0)
        if not dep:
            self.assume(m == n1 * n2) if z3.is_int_value(n1) or z3.is_int_value(n2) else None
        self.assume(self.forall([k], z3.Implies(z3.And(0 <= k, k < m), z3.And(
            0 <= I_(k), I_(k) < n1, 0 <= J_(k), J_(k) < sub(n2), z3.Select(arr, k) == sub(term),
            K_(I_(k), J_(k)) == k)), [z3.Select(arr, k)]))
        self.assume(self.forall([i, j], z3.Implies(z3.And(0 <= i, i < n1, 0 <= j, j < n2), z3.And(
            0 <= K_(i, j), K_(i, j) < m, I_(K_(i, j)) == i, J_(K_(i, j)) == j,
            z3.Select(arr, K_(i, j)) == term)), [K_(i, j)]))
        p1, p2 = self.src_pattern(get1, i), self.src_pattern(get2, j)
        if p1 is not None and p2 is not None:
            self.assume(self.forall([i, j], z3.Implies(z3.And(0 <= i, i < n1, 0 <= j, j < n2), z3.And(
                0 <= K_(i, j), K_(i, j) < m, I_(K_(i, j)) == i, J_(K_(i, j)) == j,
                z3.Select(arr, K_(i, j)) == term)), [z3.MultiPattern(p1, p2)]))
        r = SeqV(vty, m, arr)
        r.cell = K_
        self.ghost["last_cell"] = (K_, n1, n2, get1, get2)
        return r

    def e_DictComp(self, e):
        if len(e.generators) != 1:
            raise Unsupported("nested dict comprehension")
        g = e.generators[0]
        itv = self.ev(g.iter)
        items = getattr(itv, "items_of", None)
        # {k: f(k, v) for k, v in m.items() if c}
        if items is not None and isinstance(g.target, ast.Tuple) and isinstance(e.key, ast.Name) \
                and isinstance(g.target.elts[0], ast.Name) and e.key.id == g.target.elts[0].id:
            m = items
            if m.kty is None:
                return MapV(None, None, None, None)
            x = self.bvar("key", m.kty.sort())
            outer = list(self.bound)
            self.bound.append(([x], [z3.Select(m.dom, x)]))
            saved = None
            try:
                kv = from_term(m.kty, x)
                vv = from_term(m.vty, z3.Select(m.arr, x))
                vv.taint = frozenset([id(m)]) if not isinstance(vv, Sc) else frozenset()
                saved = self.with_target(g.target, TupV([kv, vv]))
                conds = []
                for c in g.ifs:
                    t = self.truth(self.ev(c))
                    conds.append(t)
                    vs, gs = self.bound[-1]
                    self.bound[-1] = (vs, gs + [t])
                v = self.ev(e.value)
                if v.ty is None:
                    raise Unsupported("dict comprehension value type")
                term, vty, tnt = to_term(v), v.ty, getattr(v, "taint", frozenset())
            finally:
                self.bound[:] = outer
                if saved is not None:
                    self.restore(saved)
            cond = z3.And(z3.Select(m.dom, x), *conds)
            if conds:
                dom = self.fresh("dom", m.dom.sort())
                self.assume(self.forall([x], z3.Select(dom, x) == cond, [z3.Select(dom, x)]))
            else:
                dom = m.dom
            arr = self.fresh("val", z3.ArraySort(m.kty.sort(), vty.sort()))
            self.assume(self.forall([x], z3.Implies(cond, z3.Select(arr, x) == term), [z3.Select(arr, x)]))
            r = MapV(m.kty, vty, dom, arr)
            if tnt:
                r.taint = tnt
            return r
        # {x: f(x) for x in seq}
        n, get, ety = self.view(itv)
        if ety is None:
            return MapV(None, None, None, None)
        return self.world.lib.dict_from_view(self, n, get, g, e)


_LOCALS = {}


def _has_quant(t, cache={}):
    k = t.get_id()
    if k in cache and cache[k][0].eq(t):
        return cache[k][1]
    r = z3.is_quantifier(t) or any(_has_quant(c) for c in t.children())
    if len(cache) > 200000:
        cache.clear()
    cache[k] = (t, r)
    return r


class FnCtx:
    """what contract functions see: F.args (current values), F.old (values at entry)"""

    def __init__(self, I):
        self.I = I
        self.g = {}

    def arg(self, k):
        return self.args[k]


class LoopCtx:
    def __init__(self, I, node, n, get, itv, test):
        self.I, self.node, self.n, self.get, self.itv, self.test = I, node, n, get, itv, test
        self.F = I.F
        self.i = z3.IntVal(0)

    def var(self, name, ty=None):
        """the loop variable called `name`, or the only variable of type ty"""
        v = self.I.env.get(name)
        if v is not None and (ty is None or v.ty == ty or v.ty is None):
            if v.ty is None and ty is not None:
                settle(v, ty)
            return v
        if ty is not None:
            c = [k for k, x in self.I.env.items() if x is not None and x.ty == ty]
            if len(c) == 1:
                return self.I.env[c[0]]
        raise Mismatch(f"no variable {name}")

    def mod_of(self, ty):
        """the only variable of type ty assigned or mutated in the loop body"""
        assigned, mutated = self.I.roots_modified(self.node.body)
        names = set(assigned) | {r for r, p in mutated if not p or p == (None,)}
        out = []
        for k in sorted(names):
            if k not in getattr(self, "entry", self.I.env):
                continue          # local to the body
            v = self.I.env.get(k)
            if isinstance(v, (TupV, SeqV, SetV, MapV)) and v.ty != ty:
                v = self.I.env[k] = as_type(v, ty)
            if v is not None and (v.ty == ty) and not any(v is o for o in out):
                out.append(v)
        if len(out) != 1:
            raise Mismatch(f"{len(out)} modified variables of type {ty}")
        return out[0]

    def name_mod_of(self, ty):
        assigned, mutated = self.I.roots_modified(self.node.body)
        names = set(assigned) | {r for r, p in mutated if not p or p == (None,)}
        out = [k for k in sorted(names) if self.I.env.get(k) is not None and self.I.env[k].ty == ty
               and k in getattr(self, "entry", self.I.env)]
        if len(out) != 1:
            raise Mismatch(f"{len(out)} modified variables of type {ty}")
        return out[0]

    def old(self, v):
        """value of container/variable v at loop entry"""
        r = self.memo.get(id(v))
        if r is None:
            raise Mismatch("no entry value")
        return r[1]

    def old_name(self, name):
        return self.entry[name]
