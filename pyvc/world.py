"""Repository index, call dispatch and the assumed contracts of library functions."""
import ast
import os
import re
import z3
from .types import *
from .vals import *
from . import lib as L
from . import theory
from .engine import Interp, PathEnd, PyRaise, PyReturn, Mismatch, FnCtx

BUILTINS = {"len", "range", "set", "frozenset", "list", "dict", "sorted", "any", "all", "map", "filter", "zip",
            "enumerate", "reversed", "next", "min", "max", "sum", "isinstance", "abs", "int", "float", "str", "tuple",
            "print", "bool", "iter", "type", "callable", "hasattr", "getattr", "setattr", "repr", "round", "super",
            "object", "ValueError", "TypeError", "KeyError", "IndexError", "AssertionError", "NotImplementedError",
            "Exception", "open", "id", "divmod", "pow", "UnicodeDecodeError", "AttributeError", "slice", "bytes",
            "DeprecationWarning", "UserWarning", "StopIteration", "property", "staticmethod", "classmethod",
            "RuntimeError", "FileNotFoundError", "complex", "dir", "vars"}


class Module:
    def __init__(self, path, rel, src):
        self.path, self.rel, self.src = path, rel, src
        self.tree = ast.parse(src)
        self.funcs, self.classes, self.imports, self.consts = {}, {}, {}, {}
        for n in self.tree.body:
            if isinstance(n, ast.FunctionDef):
                self.funcs[n.name] = n
            elif isinstance(n, ast.ClassDef):
                self.classes[n.name] = n
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    parts = rel.replace(".py", "").split("/")
                    parts = parts[: len(parts) - n.level]
                    base = ".".join(parts + ([n.module] if n.module else []))
                for a in n.names:
                    self.imports[a.asname or a.name] = base + "." + a.name
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.consts[n.targets[0].id] = n.value


class World:
    lib = L

    def __init__(self, repo, contracts=()):
        self.repo = repo
        self.mods = {}
        self.contracts = {}
        self.extra = {}       # dotted name -> handler(I, args, kwargs, line)
        self.methods = {}     # (cls or None, name) -> handler(I, self, args, kwargs, line)
        self.attr_hooks = []
        self.getitem_hooks = []
        self.setitem_hooks = []
        for c in contracts:
            self.contracts[c.target] = c

    # -------------------------------------------------------------- sources
    def module(self, rel):
        if rel not in self.mods:
            p = os.path.join(self.repo, rel)
            if not os.path.exists(p):
                raise Unsupported(f"no file {rel}")
            with open(p, encoding="utf-8") as f:
                self.mods[rel] = Module(p, rel, f.read())
        return self.mods[rel]

    def find(self, target):
        """AST of  path::Class.method  or  path::func"""
        rel, qn = target.split("::")
        m = self.module(rel)
        parts = qn.split(".")
        if len(parts) == 1:
            if parts[0] in m.funcs:
                return m, m.funcs[parts[0]], None
            # moved or re-exported?
            if parts[0] in m.imports:
                r = self.resolve_import(m.imports[parts[0]])
                if r and r[0] == "func":
                    return r[1], r[2], None
            raise Unsupported(f"function {target} not found")
        r = self.method_in(m, parts[0], parts[1])
        if r is None:
            raise Unsupported(f"method {target} not found")
        return r[0], r[1], parts[0]

    def method_in(self, m, cls, name, depth=0):
        if depth > 5:
            return None
        c = m.classes.get(cls)
        if c is None:
            r = self.resolve_import(m.imports.get(cls, "")) if cls in m.imports else None
            if not r or r[0] != "class":
                return None
            m, c = r[1], r[2]
        for n in c.body:
            if isinstance(n, ast.FunctionDef) and n.name == name:
                return m, n
        for b in c.bases:
            if isinstance(b, ast.Name):
                r = self.method_in(m, b.id, name, depth + 1)
                if r is not None:
                    return r
        return None

    def resolve_import(self, dotted):
        if not dotted.startswith("skmine"):
            return None
        parts = dotted.split(".")
        for k in range(len(parts) - 1, 0, -1):
            base = "/".join(parts[:k])
            for rel in (base + ".py", base + "/__init__.py"):
                if os.path.exists(os.path.join(self.repo, rel)):
                    m = self.module(rel)
                    nm = parts[k]
                    if nm in m.funcs:
                        return "func", m, m.funcs[nm]
                    if nm in m.classes:
                        return "class", m, m.classes[nm]
                    if nm in m.consts:
                        return "const", m, m.consts[nm]
                    if nm in m.imports:
                        return self.resolve_import(m.imports[nm])
                    return None
        return None

    def global_name(self, I, name, m):
        if name in m.funcs:
            return FnV("func", mod=m, node=m.funcs[name], target=f"{m.rel}::{name}", name=name)
        if name in m.classes:
            return FnV("class", mod=m, node=m.classes[name], name=name)
        if name in m.imports:
            r = self.resolve_import(m.imports[name])
            if r is None:
                return FnV("global", name=m.imports[name])
            if r[0] == "func":
                return FnV("func", mod=r[1], node=r[2], target=f"{r[1].rel}::{r[2].name}", name=r[2].name)
            if r[0] == "class":
                return FnV("class", mod=r[1], node=r[2], name=r[2].name)
            return self.const_expr(I, r[2], r[1])
        if name in m.consts:
            return self.const_expr(I, m.consts[name], m)
        if name in BUILTINS:
            return FnV("global", name=name)
        raise Unsupported(f"name {name}")

    def const_expr(self, I, e, m):
        sm, se = I.module, I.env
        I.module, I.env = m, {}
        try:
            return I.ev(e)
        finally:
            I.module, I.env = sm, se

    def find_method(self, cls, attr):
        if cls is None or "::" not in str(cls):
            return None
        rel, cn = cls.split("::")
        return self.method_in(self.module(rel), cn, attr)

    def attr_hook(self, I, base, attr, line):
        for h in I.c.attr_hooks + self.attr_hooks:
            r = h(I, base, attr, line)
            if r is not None:
                return r
        if isinstance(base, SeqV) and attr == "shape":
            return TupV([Sc(INT, base.n)])
        return None

    def getitem_hook(self, I, base, key, line):
        for h in I.c.getitem_hooks + self.getitem_hooks:
            r = h(I, base, key, line)
            if r is not None:
                return r
        return None

    def setitem_hook(self, I, base, key, v, line):
        for h in I.c.setitem_hooks + self.setitem_hooks:
            if h(I, base, key, v, line):
                return True
        return False

    def mutated_args(self, I, call):
        """argument expressions possibly mutated by a call (for loop havoc)"""
        f = call.func
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
        out = []
        for c in self.contracts.values():
            if c.short == name and c.modifies:
                for k in c.modifies:
                    if isinstance(k, int):
                        off = 1 if c.is_method else 0
                        if c.is_method and k == 0:
                            if isinstance(f, ast.Attribute):
                                out.append(f.value)
                        elif k - off < len(call.args):
                            out.append(call.args[k - off])
                    elif isinstance(k, tuple):   # (0, attr): attribute of self
                        if isinstance(f, ast.Attribute):
                            out.append(ast.Attribute(value=f.value, attr=k[1], ctx=ast.Load()))
        # an inlined method may change attributes of its receiver / its mutable arguments
        if not out and name is not None and isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) \
                and f.value.id == "self" and not any(c.short == name for c in self.contracts.values()):
            r = I.env.get("self")
            if isinstance(r, RecV):
                mm = self.find_method(r.cls, name)
                if mm is not None:
                    a, mu = I.roots_modified(mm[1].body)
                    for root, path in mu:
                        if root == "self" and path and path[0] is not None:
                            out.append(ast.Attribute(value=f.value, attr=path[0], ctx=ast.Load()))
        if isinstance(f, ast.Name) and f.id in I.env and isinstance(I.env[f.id], FnV) and I.env[f.id].kind == "closure":
            node = I.env[f.id].node
            body = node.body if isinstance(node.body, list) else [ast.Expr(node.body)]
            a, mu = I.roots_modified(body)
            params = {p.arg for p in node.args.args}
            for root, path in mu:
                if root not in params:
                    out.append(ast.Name(id=root, ctx=ast.Load()))
        return out

    # -------------------------------------------------------------- calls
    def call(self, I, e):
        f = e.func
        # super().m(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) \
                and f.value.func.id == "super":
            fn = FnV("supermethod", attr=f.attr, self_=I.env.get("self"))
        else:
            fn = I.ev(f)
        if isinstance(fn, FnV) and fn.kind == "global" and fn.name in ("any", "all") and len(e.args) == 1 \
                and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)) and not e.keywords:
            return self.quant_comp(I, e.args[0], fn.name == "any")
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = I.ev(a.value)
                if isinstance(v, TupV):
                    args += v.items
                else:
                    args.append(FnV("star", val=v))
            else:
                args.append(I.ev(a))
        for k in e.keywords:
            if k.arg is None:
                v = I.ev(k.value)
                if isinstance(v, RecV) and v.cls == "dict":
                    kwargs.update(v.attrs)
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = I.ev(k.value)
        return self.apply(I, fn, args, kwargs, e.lineno)

    def apply(self, I, fn, args, kwargs, line):
        if isinstance(fn, OpaqueV):
            h = I.c.call_hook(I, fn, args, kwargs, line)
            if h is not None:
                return h
            raise Unsupported(f"call of an unknown function line {line}")
        if isinstance(fn, Sc) and fn.ty == OBJ:
            h = I.c.call_hook(I, fn, args, kwargs, line)
            if h is not None:
                return h
            raise Unsupported(f"call of a symbolic function line {line}")
        if not isinstance(fn, FnV):
            raise Unsupported(f"call of {type(fn).__name__}")
        h = I.c.call_hook(I, fn, args, kwargs, line)
        if h is not None:
            return h
        if fn.kind == "closure":
            return self.inline(I, fn.node, fn.module, args, kwargs, None, closure_env=fn.env, line=line)
        if fn.kind == "func":
            c = self.contracts.get(fn.target)
            if c is not None and not (c is I.c.__class__):
                return self.use_contract(I, c, args, kwargs, fn.node, line)
            if fn.target in self.extra:
                return self.extra[fn.target](I, args, kwargs, line)
            return self.inline(I, fn.node, fn.mod, args, kwargs, None, line=line)
        if fn.kind in ("method", "supermethod"):
            return self.method(I, fn, args, kwargs, line)
        if fn.kind == "global":
            return self.builtin(I, fn.name, args, kwargs, line)
        if fn.kind == "class":
            h = self.extra.get("class " + fn.name)
            if h is not None:
                return h(I, args, kwargs, line)
            raise Unsupported(f"construction of {fn.name}")
        if fn.kind == "partial":
            return self.apply(I, fn.fn, fn.args + args, {**fn.kw, **kwargs}, line)
        raise Unsupported(f"call of {fn.kind}")

    def bind(self, I, node, args, kwargs, mod):
        a = node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        if len(args) > len(names):
            if a.vararg:
                rest = args[len(names):]
                if len(rest) == 1 and isinstance(rest[0], FnV) and rest[0].kind == "star" and not isinstance(rest[0].val, OpaqueV):
                    env[a.vararg.arg] = rest[0].val if isinstance(rest[0].val, SeqV) else L.list_of(I, rest[0].val)
                elif len(rest) > 1 and any(isinstance(v, FnV) and v.kind == "star" for v in rest):
                    raise Unsupported("symbolic star argument")
                else:
                    env[a.vararg.arg] = TupV(rest)
                args = args[:len(names)]
            else:
                raise Unsupported("too many arguments")
        elif a.vararg:
            env[a.vararg.arg] = TupV([])
        for n, v in zip(names, args):
            if isinstance(v, FnV) and v.kind == "star":
                raise Unsupported("symbolic star argument")
            env[n] = v
        kw = dict(kwargs)
        for n in names + [p.arg for p in a.kwonlyargs]:
            if n in kw:
                env[n] = kw.pop(n)
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        defaults.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for n, d in defaults.items():
            if n not in env:
                env[n] = self.const_expr(I, d, mod)
        if a.kwarg:
            env[a.kwarg.arg] = RecV("dict", kw)
        elif kw:
            raise Unsupported("unknown keyword arguments")
        return env

    def inline(self, I, node, mod, args, kwargs, self_, closure_env=None, line=0):
        if I.call_depth >= I.MAX_INLINE:
            raise Unsupported("inlining too deep (recursion without contract?)")
        stack = getattr(I, "fn_stack", [])
        if any(n is node for n in stack):
            raise Unsupported(f"recursive call of {getattr(node, 'name', 'lambda')} without contract")
        if isinstance(node, ast.FunctionDef):
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(node)):
                raise Unsupported(f"generator {node.name} without contract")
            for d in node.decorator_list:
                dn = d.id if isinstance(d, ast.Name) else getattr(d, "attr", getattr(getattr(d, "func", None), "id", ""))
                if dn not in ("staticmethod", "classmethod", "lru_cache", "property"):
                    raise Unsupported(f"decorator {dn}")
        if self_ is not None:
            args = [self_] + list(args)
        env = self.bind(I, node, args, kwargs, mod)
        saved_env, saved_mod = I.env, I.module
        if closure_env is not None:
            new = _ChainEnv(closure_env)
            new.update(env)
        else:
            new = env
        I.env, I.module = new, mod
        I.call_depth += 1
        I.fn_stack = stack + [node]
        try:
            if isinstance(node, ast.Lambda):
                return I.ev(node.body)
            try:
                I.block(node.body)
                return NONE
            except PyReturn as r:
                return r.val
        finally:
            I.env, I.module = saved_env, saved_mod
            I.call_depth -= 1
            I.fn_stack = stack

    def use_contract(self, I, c, args, kwargs, node, line):
        """modular call: check requires, havoc the frame, assume ensures"""
        c = c if not isinstance(c, type) else c()
        va = [node.args.vararg] if node.args.vararg else []
        names = [p.arg for p in node.args.posonlyargs + node.args.args + va + node.args.kwonlyargs]
        env = self.bind(I, node, args, kwargs, self.module(c.target.split("::")[0]))
        vals = [env.get(n, NONE) for n in names]
        vals = c.adapt_args(I, vals)
        F = FnCtx(I)
        F.args = vals
        memo = {}
        F.old = [clone(v, memo) for v in vals]
        F.memo = memo
        F.caller = True
        for nm, f in c.requires(F):
            I.prove(f"pre.{c.short}.{nm}", f, line, "pre")
        for exc, cond in c.raises(F):
            I.safe(f"call.{c.short}", z3.Not(cond), line, exc)
        if c.may_raise and not c.raises(F):
            raise Unsupported(f"call of {c.short}, which may raise")
        if I.bound and c.modifies:
            raise Unsupported("call with effects inside a comprehension")
        for k in c.modifies:
            v = vals[k] if isinstance(k, int) else vals[k[0]]
            if isinstance(k, tuple):
                owner = v
                v = owner.attrs.get(k[1])
                if v is None:
                    continue
                if isinstance(v, Sc):
                    owner.attrs[k[1]] = I.havoc_new(k[1], v)
                    continue
            I.havoc_in_place(v)
            if not c.shallow:
                propagate(I, v)
        I.cur_contract_use = c
        res = c.fresh_result(I, F)
        for nm, f in c.ensures(F, res):
            I.assume(f)
            I.fact_names[I.pc[-1].get_id()] = f"{c.short}.{nm}"
        I.trusted.add(f"contract:{c.target}")
        if not I.typing:
            I.c.after_call(I, c, F, res)
        return res

    # -------------------------------------------------------------- methods
    def method(self, I, fn, args, kwargs, line):
        s, name = fn.self_, fn.attr
        if isinstance(s, RecV):
            key = (s.cls, name)
            if key in self.methods:
                return self.methods[key](I, s, args, kwargs, line)
            if "::" in str(s.cls):
                m = self.find_method(s.cls, name)
                tgt = f"{s.cls}.{name}"
                c = self.contracts.get(tgt)
                if c is None and m is not None:
                    # contract attached to the defining class
                    for t, cc in self.contracts.items():
                        if cc.short == name and t.startswith(m[0].rel + "::"):
                            c = cc
                if c is not None:
                    return self.use_contract(I, c, [s] + args, kwargs, m[1], line)
                if m is not None:
                    return self.inline(I, m[1], m[0], args, kwargs, s, line=line)
            if s.cls == "dict":
                if name == "get" and isinstance(args[0], StrV):
                    return s.attrs.get(args[0].s, args[1] if len(args) > 1 else NONE)
        for ty, nm in (((type(s).__name__), name), (None, name)):
            if (ty, nm) in self.methods:
                r = self.methods[(ty, nm)](I, s, args, kwargs, line)
                if r is not None:
                    return r
        r = container_method(I, s, name, args, kwargs, line, self)
        if r is not None:
            return r
        raise Unsupported(f"method {name} on {type(s).__name__} line {line}")

    # -------------------------------------------------------------- builtins
    def builtin(self, I, name, args, kwargs, line):
        if name in I.c.extra:
            r = I.c.extra[name](I, args, kwargs, line)
            if r is not None:
                return r
        if name in self.extra:
            r = self.extra[name](I, args, kwargs, line)
            if r is not None:
                return r
        r = self.resolve_import(name) if "." in name else None
        if r is not None and r[0] == "func":
            return self.apply(I, FnV("func", mod=r[1], node=r[2], target=f"{r[1].rel}::{r[2].name}", name=r[2].name), args, kwargs, line)
        f = getattr(self, "b_" + name.replace(".", "_"), None)
        if f is not None:
            return f(I, args, kwargs, line)
        short = name.split(".")[-1]
        f = getattr(self, "b_" + short, None)
        if f is not None and short in ("BitMap", "reduce", "takewhile", "defaultdict", "SortedDict", "SortedList",
                                       "Counter", "chain", "partial", "deepcopy", "copy"):  # by last name
            return f(I, args, kwargs, line)
        raise Unsupported(f"call of {name} line {line}")

    def b_len(self, I, a, k, line):
        v = a[0]
        if isinstance(v, SeqV):
            return Sc(INT, v.n)
        if isinstance(v, TupV):
            return Sc(INT, z3.IntVal(len(v.items)))
        if isinstance(v, SetV):
            if getattr(v, "keyed", None) is not None:
                raise Unsupported("length of a SortedList (modelled without multiplicities)")
            if v.ety is None:
                return Sc(INT, z3.IntVal(0))
            return Sc(INT, I.card(v.arr, v.ety))
        if isinstance(v, MapV):
            if v.kty is None:
                return Sc(INT, z3.IntVal(0))
            return Sc(INT, I.card(v.dom, v.kty))
        if isinstance(v, FnV) and v.kind == "keysview":
            return Sc(INT, I.card(v.map.dom, v.map.kty))
        if isinstance(v, RangeV):
            n, _, _ = I.view(v)
            return Sc(INT, n)
        if isinstance(v, Sc) and v.ty == OBJ:
            f = z3.Function("obj_len", OBJ_SORT, z3.IntSort())
            I.assume(f(v.term) >= 0)
            return Sc(INT, f(v.term))
        if isinstance(v, OpaqueV):
            n = I.fresh("len", z3.IntSort())
            I.assume(n >= 0)
            return Sc(INT, n)
        if isinstance(v, RecV):
            h = getattr(I.c, "world_methods", {}).get((v.cls, "__len__"))
            if h is not None:
                return h(I, v, [], {}, line)
        raise Unsupported(f"len of {type(v).__name__}")

    def b_range(self, I, a, k, line):
        ts = [x.term if isinstance(x, Sc) and x.ty in (INT,) else None for x in a]
        if any(t is None for t in ts):
            raise Unsupported("range argument")
        if len(ts) == 1:
            return RangeV(z3.IntVal(0), ts[0], z3.IntVal(1))
        return RangeV(ts[0], ts[1], ts[2] if len(ts) > 2 else z3.IntVal(1))

    def b_set(self, I, a, k, line):
        if not a:
            return SetV(None, None)
        s = L.as_set(I, a[0].map if isinstance(a[0], FnV) and a[0].kind == "keysview" else a[0])
        if isinstance(s, OpaqueV):
            return s
        return SetV(s.ety, s.arr)

    def b_frozenset(self, I, a, k, line):
        s = self.b_set(I, a, k, line)
        if isinstance(s, SetV):
            s.frozen = True
        return s

    def b_list(self, I, a, k, line):
        if not a:
            return SeqV(None, z3.IntVal(0), None)
        v = a[0]
        if isinstance(v, FnV) and v.kind in ("keysview",):
            return L.list_of(I, v.map)
        return L.list_of(I, v)

    def b_tuple(self, I, a, k, line):
        if not a:
            return TupV([])
        r = self.b_list(I, a, k, line)
        r = clone(r, {})
        if isinstance(r, SeqV):
            r.kind = "tuple"
        elif isinstance(r, TupV):
            r.kind = "tuple"
        return r

    def b_dict(self, I, a, k, line):
        if not a and not k:
            return MapV(None, None, None, None)
        if not a and k:
            return RecV("dict", k)
        if len(a) == 1 and isinstance(a[0], GenV) and getattr(a[0], "items_of", None) is not None and not k \
                and z3.is_int_value(a[0].pos) and a[0].pos.as_long() == 0 and a[0].items_of.order is not None:
            a = [a[0].items_of]        # dict(m.items()): a copy
        if len(a) == 1 and isinstance(a[0], MapV) and not k:
            m = a[0]
            r = MapV(m.kty, m.vty, m.dom, m.arr)
            r.taint = frozenset([id(m)]) | getattr(m, "taint", frozenset())
            return r
        if len(a) == 1 and getattr(a[0], "zip_of", None) is not None:
            n, get, ety = I.view(a[0])
            return map_from_pairs(I, n, get)
        if len(a) == 1:
            n, get, ety = I.view(a[0])
            d = getattr(a[0], "defn", None)
            if d is not None and d[2].eq(a[0].arr):      # the pairs as they were written
                get = lambda i: from_term(a[0].ety, z3.substitute(d[1], (d[0], i)))
            return map_from_pairs(I, n, get)
        raise Unsupported("dict()")

    def b_defaultdict(self, I, a, k, line):
        m = MapV(None, None, None, None)
        f = a[0] if a else None
        if isinstance(f, FnV) and f.kind == "global" and f.name.split(".")[-1] in ("BitMap", "set"):
            m.default = "set"
            return m
        if isinstance(f, FnV) and f.kind == "global" and f.name in ("int",):
            m.default = "int"
            return m
        raise Unsupported("defaultdict factory")

    def b_SortedDict(self, I, a, k, line):
        L.used(I, "sortedcontainers.SortedDict: a map enumerated by increasing key")
        r = self.b_dict(I, a, k, line)
        if not isinstance(r, MapV):
            raise Unsupported("SortedDict of that")
        if r.kty in (None, INT, REAL):
            r.sorted_keys = True
        else:
            r.sorted_keys = None       # enumerated in some order
        return r

    def b_BitMap(self, I, a, k, line):
        L.used(I, "pyroaring.BitMap behaves as a finite set of integers")
        if not a:
            s = SetV(INT, z3.K(z3.IntSort(), z3.BoolVal(False)))
            return s
        s = L.as_set(I, a[0])
        return SetV(s.ety, s.arr)

    def b_sorted(self, I, a, k, line):
        """a permutation of the input, ordered by the key"""
        rev = k.get("reverse")
        revb = bool(rev is not None and z3.is_true(z3.simplify(I.truth(rev))))
        return sort_view(I, a[0], k.get("key"), revb, self, line)

    def b_reversed(self, I, a, k, line):
        v = a[0]
        if isinstance(v, SeqV):
            return L.reverse_seq(I, v)
        if isinstance(v, TupV):
            return TupV(list(reversed(v.items)), v.kind)
        if isinstance(v, RangeV):
            n, get, ety = I.view(v)
            return RangeV(get(n - 1).term, v.start - v.step, z3.simplify(-v.step))
        if isinstance(v, GenV) and getattr(v, "seq", None) is not None:
            s = L.reverse_seq(I, v.seq)
            n, get, ety = I.view(s)
            g = GenV(n, get, z3.IntVal(0), ety)
            g.seq = s
            if getattr(v, "items_of", None) is not None:
                g.taint = getattr(v, "taint", frozenset())
            return g
        if isinstance(v, FnV) and v.kind == "keysview":
            v = v.map
        if isinstance(v, MapV) or (isinstance(v, GenV) and (getattr(v, "items_of", None) or getattr(v, "values_of", None))):
            m = v if isinstance(v, MapV) else getattr(v, "items_of", None) or v.values_of
            I.enum_map(m)
            rk = L.reverse_seq(I, SeqV(m.kty, *m.order))
            if isinstance(v, MapV):
                return rk
            sh = MapV(m.kty, m.vty, m.dom, m.arr, None, (rk.n, rk.arr))
            return map_method(I, sh, "items" if getattr(v, "items_of", None) is not None else "values", [], {}, line, self)
        raise Unsupported("reversed")

    def _quant(self, I, v, ex):
        if isinstance(v, TupV):
            ts = [I.truth(x) for x in v.items]
            return Sc(BOOL, (z3.Or if ex else z3.And)(*ts) if ts else z3.BoolVal(not ex))
        if isinstance(v, OpaqueV):
            return Sc(BOOL, I.fresh("any", z3.BoolSort()))
        lazy = getattr(v, "lazy_map", None)
        if lazy is not None:
            fn, src = lazy
            el = self.elements(I, src)
            if el is None:
                return Sc(BOOL, z3.BoolVal(not ex))
            j, guard, val = el
            outer = list(I.bound)
            I.bound.append(([j], [guard]))
            try:
                t = I.truth(I.world.apply(I, fn, [val], {}, line_of(v)))
            finally:
                I.bound[:] = outer
            return Sc(BOOL, z3.Exists([j], z3.And(guard, t)) if ex else z3.ForAll([j], z3.Implies(guard, t)))
        else:
            n, get, ety = I.view(v)
            if ety is None:
                return Sc(BOOL, z3.BoolVal(not ex))
            j = I.bvar("j", z3.IntSort())
            t = I.truth(get(j))
        if ex:
            return Sc(BOOL, z3.Exists([j], z3.And(0 <= j, j < n, t)))
        return Sc(BOOL, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), t)))

    def elements(self, I, v):
        """(bound variable, guard, element) to quantify over the elements of v; None when v must be materialised"""
        if isinstance(v, FnV) and v.kind == "keysview":
            v = v.map
        if isinstance(v, MapV) and v.kty is not None:
            v = SetV(v.kty, v.dom)
        if isinstance(v, SetV) and v.ety is not None:
            x = I.bvar("x", v.ety.sort())
            return x, z3.Select(v.arr, x), from_term(v.ety, x)
        m = getattr(v, "items_of", None)
        if m is not None and m.kty is not None:
            x = I.bvar("x", m.kty.sort())
            return x, z3.Select(m.dom, x), TupV([from_term(m.kty, x), from_term(m.vty, z3.Select(m.arr, x))])
        m = getattr(v, "values_of", None)
        if m is not None and m.kty is not None:
            x = I.bvar("x", m.kty.sort())
            return x, z3.Select(m.dom, x), from_term(m.vty, z3.Select(m.arr, x))
        n, get, ety = I.view(v)
        if ety is None:
            return None
        j = I.bvar("j", z3.IntSort())
        return j, z3.And(0 <= j, j < n), get(j)

    def quant_comp(self, I, e, ex):
        outer, saved, vs = list(I.bound), [], []
        try:
            for g in e.generators:
                itv = I.ev(g.iter)
                if isinstance(itv, TupV):
                    itv = tup_to_seq(itv) if itv.items else SeqV(None, z3.IntVal(0), None)
                if isinstance(itv, OpaqueV):
                    return Sc(BOOL, I.fresh("any", z3.BoolSort()))
                el = self.elements(I, itv)
                if el is None:
                    return Sc(BOOL, z3.BoolVal(not ex))
                x, guard, val = el
                I.bound.append(([x], [guard]))
                saved.append(I.with_target(g.target, val))
                gs = [guard]
                for c in g.ifs:
                    t = I.truth(I.ev(c))
                    gs.append(t)
                    I.bound[-1] = ([x], list(gs))
                vs.append((x, gs))
            t = I.truth(I.ev(e.elt))
        finally:
            I.bound[:] = outer
            for s in reversed(saved):
                I.restore(s)
        for x, gs in reversed(vs):
            t = z3.Exists([x], z3.And(*gs, t)) if ex else z3.ForAll([x], z3.Implies(z3.And(*gs), t))
        return Sc(BOOL, t)

    def b_SortedList(self, I, a, k, line):
        L.used(I, "sortedcontainers.SortedList: the elements added; irange(lo, hi) those with key(lo) <= key <= key(hi)")
        s = SetV(None, None)
        if a:
            t = L.as_set(I, a[0])
            s = SetV(t.ety, t.arr)
        s.keyed = k.get("key", NONE)
        return s

    def b_any(self, I, a, k, line):
        return self._quant(I, a[0], True)

    def b_all(self, I, a, k, line):
        return self._quant(I, a[0], False)

    def b_map(self, I, a, k, line):
        if len(a) != 2:
            raise Unsupported("map with several iterables")
        g = GenV(None, None, z3.IntVal(0))
        src = a[1]
        if isinstance(src, TupV):
            return TupV([self.apply(I, a[0], [x], {}, line) for x in src.items], "list")
        if isinstance(src, SetV) and src.ety is not None:
            # consumed by any/all as a quantifier; materialised only when iterated
            g = LazyMap(I, self, a[0], src, line)
            return g
        s = self.map_seq(I, a[0], src, line)
        return s

    def map_seq(self, I, fn, src, line):
        n, get, ety = I.view(src)
        if ety is None:
            return SeqV(None, z3.IntVal(0), None)
        s = I.map_filter(n, get, None, [], lambda: None) if False else None
        j = I.bvar("j", z3.IntSort())
        outer = list(I.bound)
        I.bound.append(([j], [0 <= j, j < n]))
        try:
            v = self.apply(I, fn, [get(j)], {}, line)
            if v.ty is None:
                raise Unsupported("map result type")
            term, vty, tnt = to_term(v), v.ty, getattr(v, "taint", frozenset())
        finally:
            I.bound[:] = outer
        arr = I.fresh("map", z3.ArraySort(z3.IntSort(), vty.sort()))
        I.forall2([j], z3.Implies(z3.And(0 <= j, j < n), z3.Select(arr, j) == term), [z3.Select(arr, j)],
                  I.src_pattern(get, j))
        s = SeqV(vty, n, arr)
        n2, get2, ety2 = I.view(s)
        g = GenV(n2, get2, z3.IntVal(0), ety2)
        g.seq = s
        g.taint = tnt
        return g

    def b_filter(self, I, a, k, line):
        n, get, ety = I.view(a[1])
        if ety is None:
            return SeqV(None, z3.IntVal(0), None)
        tgt = ast.Name(id="__f", ctx=ast.Store())
        # reuse the comprehension machinery
        j = I.bvar("j", z3.IntSort())
        fn = a[0]

        class _C:
            pass
        cond_holder = {}

        def cond_expr():
            return None
        I.env["__filter_fn"] = fn
        call = ast.parse("__filter_fn(__f)", mode="eval").body
        r = I.map_filter(n, get, tgt, [call], lambda: I.env["__f"])
        I.env.pop("__filter_fn", None)
        return r

    def b_zip(self, I, a, k, line):
        if all(isinstance(x, TupV) for x in a):
            return TupV([TupV(list(t)) for t in zip(*[x.items for x in a])], "list")
        views = [I.view(x) for x in a]
        if any(v[2] is None for v in views):
            return SeqV(None, z3.IntVal(0), None)
        n = views[0][0]
        for v in views[1:]:
            n = z3.If(v[0] < n, v[0], n)
        n = z3.simplify(n)
        g = GenV(n, lambda i: TupV([v[1](i) for v in views]), z3.IntVal(0), TupT(*[v[2] for v in views]))
        return g

    def b_enumerate(self, I, a, k, line):
        start = a[1].term if len(a) > 1 else (k["start"].term if "start" in k else z3.IntVal(0))
        if isinstance(a[0], TupV):
            return TupV([TupV([Sc(INT, z3.simplify(start + i)), x]) for i, x in enumerate(a[0].items)], "list")
        n, get, ety = I.view(a[0])
        if ety is None:
            return SeqV(None, z3.IntVal(0), None)
        return GenV(n, lambda i: TupV([Sc(INT, z3.simplify(start + i)), get(i)]), z3.IntVal(0), TupT(INT, ety))

    def b_iter(self, I, a, k, line):
        n, get, ety = I.view(a[0])
        return GenV(n, get, z3.IntVal(0), ety)

    def b_next(self, I, a, k, line):
        g = a[0]
        if not isinstance(g, GenV):
            raise Unsupported("next of non-iterator")
        if g.wrap is not None:
            kind, pred, inner = g.wrap
            if I.decide(inner.pos < inner.n):
                x = inner.get(inner.pos)
                inner.pos = z3.simplify(inner.pos + 1)
                if I.decide(I.truth(self.apply(I, pred, [x], {}, line))):
                    return x
                g.wrap = ("done", None, GenV(z3.IntVal(0), None, z3.IntVal(0)))
            if len(a) > 1:
                return a[1]
            raise PyRaise("StopIteration", line)
        if I.decide(g.pos < g.n):
            x = g.get(g.pos)
            g.pos = z3.simplify(g.pos + 1)
            return x
        if len(a) > 1:
            return a[1]
        raise PyRaise("StopIteration", line)

    def b_takewhile(self, I, a, k, line):
        if not isinstance(a[1], GenV):
            raise Unsupported("takewhile over non-iterator")
        return GenV(None, None, None, a[1].ety, ("takewhile", a[0], a[1]))

    def b_reduce(self, I, a, k, line):
        fn, it = a[0], a[1]
        nm = fn.name if isinstance(fn, FnV) and fn.kind == "global" else None
        opname = None
        if nm is not None:
            opname = {"intersection": "and", "union": "or"}.get(nm.split(".")[-1])
            opname = opname or {"operator.and_": "and", "operator.or_": "or"}.get(nm)
        elif isinstance(fn, FnV) and fn.kind == "closure" and isinstance(fn.node, ast.Lambda):
            b = fn.node.body
            ps = [p.arg for p in fn.node.args.args]
            if isinstance(b, ast.BinOp) and isinstance(b.left, ast.Name) and isinstance(b.right, ast.Name) \
                    and [b.left.id, b.right.id] in (ps, ps[::-1]):
                opname = {ast.BitAnd: "and", ast.BitOr: "or"}.get(type(b.op))
        if opname is None:
            raise Unsupported("reduce")
        if isinstance(it, TupV):
            it = tup_to_seq(it)
        seq_taint = getattr(it, "taint", frozenset())
        n, get, ety = I.view(it)
        if len(a) == 2:
            I.safe("reduce-empty", n > 0, line, "TypeError")
        if ety is None or ety.kind != "set":
            raise Unsupported("reduce element type")
        xty = ety.args[0]
        r = I.fresh("reduce", ety.sort())
        x = I.bvar("x", xty.sort())
        j = I.bvar("j", z3.IntSort())
        mem = z3.Select(to_term(get(j)), x)
        rng = z3.And(0 <= j, j < n)
        wit = I.fresh_fn("redwit", xty.sort(), z3.IntSort())
        at = lambda t: z3.substitute(t, (j, wit(x)))
        ini = z3.Select(a[2].arr, x) if len(a) == 3 else None
        src = z3.simplify(to_term(get(j)))
        rx = z3.Select(r, x)
        if opname == "and":
            one = z3.Implies(z3.And(rx, rng), mem)
            other = z3.Or(rx, z3.And(at(rng), z3.Not(at(mem))), *([z3.Not(ini)] if ini is not None else []))
            if ini is not None:
                I.assume(I.forall([x], z3.Implies(rx, ini), [rx]))
        else:
            one = z3.Implies(z3.And(mem, rng), rx)
            other = z3.Or(z3.Not(rx), z3.And(at(rng), at(mem)), *([ini] if ini is not None else []))
            if ini is not None:
                I.assume(I.forall([x], z3.Implies(ini, rx), [ini]))
        I.forall2([x, j], one, [z3.MultiPattern(rx, src)], mem)
        I.assume(I.forall([x], other, [rx]))
        v = SetV(xty, r)
        v.taint = seq_taint       # may be the very first element
        return v

    def b_min(self, I, a, k, line):
        return self._minmax(I, a, k, line, True)

    def b_max(self, I, a, k, line):
        return self._minmax(I, a, k, line, False)

    def _minmax(self, I, a, k, line, is_min):
        if len(a) > 1:
            if k.get("key") is not None:
                raise Unsupported("min with key")
            r = a[0]
            for x in a[1:]:
                c = L.compare(I, ast.Lt() if is_min else ast.Gt(), x, r, line)
                r = I.merge(c.term, x, r)
            return r
        v = a[0]
        if isinstance(v, TupV):
            return self._minmax(I, v.items, k, line, is_min) if len(v.items) > 1 else v.items[0]
        n, get, ety = I.view(v)
        if "default" not in k:
            I.safe("min-empty", n > 0, line, "ValueError")
        if ety is None:
            return k.get("default", OpaqueV("min of empty"))
        w = I.fresh("argmin", z3.IntSort())
        I.assume(z3.Implies(n > 0, z3.And(0 <= w, w < n)))
        j = I.bvar("j", z3.IntSort())
        keyf = k.get("key")

        def keyof(x):
            return x if keyf is None else self.apply(I, keyf, [x], {}, line)
        outer = list(I.bound)
        kw = keyof(get(w))
        I.bound.append(([j], [0 <= j, j < n]))
        try:
            kj = keyof(get(j))
            le = L.compare(I, ast.LtE(), kw, kj, line) if is_min else L.compare(I, ast.GtE(), kw, kj, line)
        finally:
            I.bound[:] = outer
        I.assume(I.forall([j], z3.Implies(z3.And(0 <= j, j < n), le.term)))
        r = get(w)
        if "default" in k and not isinstance(k["default"], NoneV):
            return I.merge(n > 0, r, k["default"])
        return r

    def b_sum(self, I, a, k, line):
        v = a[0]
        if isinstance(v, TupV):
            r = Sc(INT, z3.IntVal(0))
            for x in v.items:
                r = L.binop(I, ast.Add(), r, x, line)
            return r
        n, get, ety = I.view(v)
        if ety is None:
            return Sc(INT, z3.IntVal(0))
        if ety not in (INT, REAL, BOOL):
            raise Unsupported("sum of non-numbers")
        s = v if isinstance(v, SeqV) else getattr(v, "seq", None)
        if s is None or ety == BOOL:
            arr = I.fresh("summand", z3.ArraySort(z3.IntSort(), (REAL if ety == REAL else INT).sort()))
            j = I.bvar("j", z3.IntSort())
            I.assume(I.forall([j], z3.Implies(z3.And(0 <= j, j < n), z3.Select(arr, j) == coerce_term(
                get(j), REAL if ety == REAL else INT)), [z3.Select(arr, j)]))
        else:
            arr = s.arr
            L.cat_sums(I, arr, n, getattr(s, "cat", None), psum)
        return Sc(REAL if ety == REAL else INT, psum(I, arr, n))

    def b_isinstance(self, I, a, k, line):
        v, t = a
        ts = t.items if isinstance(t, TupV) else [t]
        out = []
        for c in ts:
            r = I.c.isinstance_hook(I, v, c)
            if r is None:
                nm = c.name if isinstance(c, FnV) else "?"
                r = static_isinstance(v, nm)
            if r is None:
                raise Unsupported("isinstance")
            out.append(r if z3.is_expr(r) else z3.BoolVal(r))
        return Sc(BOOL, z3.Or(*out) if len(out) > 1 else out[0])

    def b_callable(self, I, a, k, line):
        if isinstance(a[0], FnV):
            return Sc(BOOL, z3.BoolVal(True))
        if isinstance(a[0], Sc) and a[0].ty == OBJ:
            f = z3.Function("callable", OBJ_SORT, z3.BoolSort())
            return Sc(BOOL, f(a[0].term))
        raise Unsupported("callable")

    def b_abs(self, I, a, k, line):
        v = a[0]
        if L.num(v):
            return Sc(v.ty, z3.If(v.term >= 0, v.term, -v.term))
        raise Unsupported("abs")

    def b_int(self, I, a, k, line):
        v = a[0]
        if isinstance(v, Sc) and v.ty == INT:
            return v
        if isinstance(v, Sc) and v.ty == BOOL:
            return Sc(INT, coerce_term(v, INT))
        if isinstance(v, Sc) and v.ty == REAL:   # truncation towards zero
            return Sc(INT, z3.If(v.term >= 0, z3.ToInt(v.term), -z3.ToInt(-v.term)))
        if isinstance(v, Sc) and v.ty == OBJ:
            f = z3.Function("int_of", OBJ_SORT, z3.IntSort())
            return Sc(INT, f(v.term))
        raise Unsupported("int()")

    def b_float(self, I, a, k, line):
        v = a[0]
        if L.num(v):
            return Sc(REAL, coerce_term(v, REAL))
        if isinstance(v, StrV) and v.s in ("inf", "-inf"):
            return OpaqueV("inf")
        raise Unsupported("float()")

    def b_bool(self, I, a, k, line):
        return Sc(BOOL, I.truth(a[0]))

    def b_str(self, I, a, k, line):
        v = a[0]
        if isinstance(v, (StrV,)):
            return v
        if isinstance(v, Sc):
            f = z3.Function("str_of_" + v.ty.name, v.ty.sort(), OBJ_SORT)
            return Sc(OBJ, f(v.term))
        return Sc(OBJ, I.fresh("text", OBJ_SORT))

    def b_print(self, I, a, k, line):
        return NONE

    def b_type(self, I, a, k, line):
        v = a[0] if len(a) == 1 else None
        if isinstance(v, MapV) and "sorted_keys" not in v.__dict__ and v.default is None:
            return FnV("global", name="dict")
        if isinstance(v, (SeqV, TupV)) and v.kind in ("list", "tuple"):
            return FnV("global", name=v.kind)
        return OpaqueV("type")

    def b_partial(self, I, a, k, line):
        return FnV("partial", fn=a[0], args=a[1:], kw=k)

    def b_getattr(self, I, a, k, line):
        if isinstance(a[1], StrV):
            return L.getattr_(I, a[0], a[1].s, line)
        if isinstance(a[0], RecV) and "__map__" in a[0].attrs and len(a) == 2:
            return L.getitem(I, a[0].attrs["__map__"], a[1], line)
        raise Unsupported("getattr")

    def b_setattr(self, I, a, k, line):
        if isinstance(a[0], RecV) and isinstance(a[1], StrV):
            L.setattr_(I, a[0], a[1].s, a[2], line)
            return NONE
        if isinstance(a[0], RecV) and "__map__" in a[0].attrs:
            L.setitem(I, a[0].attrs["__map__"], a[1], a[2], line)
            return NONE
        raise Unsupported("setattr")

    def b_hasattr(self, I, a, k, line):
        if isinstance(a[0], RecV) and isinstance(a[1], StrV):
            return Sc(BOOL, z3.BoolVal(a[1].s in a[0].attrs))
        if isinstance(a[0], (SeqV, SetV, TupV)) and isinstance(a[1], StrV) and a[1].s in ("shape", "ndim"):
            return Sc(BOOL, z3.BoolVal(False))
        raise Unsupported("hasattr")

    # numpy basics
    def b_numpy_log2(self, I, a, k, line):
        v = a[0]
        if isinstance(v, Sc):
            L.used(I, "numpy.log2 over mathematical reals: log2(1)=0, strictly increasing on positives")
            return Sc(REAL, log2(I, coerce_term(v, REAL)))
        raise Unsupported("log2")

    def b_math_log2(self, I, a, k, line):
        v = a[0]
        if not isinstance(v, Sc):
            raise Unsupported("log2")
        L.used(I, "math.log2 over mathematical reals: log2(1)=0, strictly increasing on positives")
        x = coerce_term(v, REAL)
        I.safe("log2", x > 0, line, "ValueError")
        return Sc(REAL, log2(I, x))

    def b_round(self, I, a, k, line):
        L.used(I, "round: any number")
        return I.fresh_val("rounded", REAL)

    def b_math_pow(self, I, a, k, line):
        if isinstance(a[1], Sc) and z3.is_int_value(z3.simplify(a[1].term)) and z3.simplify(a[1].term).as_long() == 2:
            L.used(I, "math.pow over mathematical reals")
            x = a[0].term
            return Sc(REAL, z3.ToReal(x * x) if a[0].ty == INT else x * x)
        raise Unsupported("pow")

    def b_time_time(self, I, a, k, line):
        L.used(I, "time.time: any number")
        return I.fresh_val("clock", REAL)

    def b_numpy_array(self, I, a, k, line):
        v = a[0]
        if "dtype" in k and set(k) == {"dtype"}:
            d = k["dtype"]
            name = d.name.split(".")[-1] if isinstance(d, FnV) and d.kind == "global" else None
            m = re.fullmatch(r"(u?)int(8|16|32|64)?", name or "")
            s = tup_to_seq(v) if isinstance(v, TupV) else L.list_of(I, v) if isinstance(v, GenV) else v
            if not isinstance(s, SeqV) or s.ety != INT or m is None:
                raise Unsupported("np.array(dtype=...)")
            b = int(m.group(2) or 64)
            lo, hi = (0, 2 ** b) if m.group(1) else (-2 ** (b - 1), 2 ** (b - 1))
            j = I.bvar("j", z3.IntSort())
            I.safe("OverflowError", I.forall([j], z3.Implies(z3.And(0 <= j, j < s.n), z3.And(lo <= z3.Select(s.arr, j), z3.Select(s.arr, j) < hi)),
                                             [z3.Select(s.arr, j)]), line, "OverflowError")
            return SeqV(INT, s.n, s.arr, "array")
        if k:
            raise Unsupported("np.array with options")
        if isinstance(v, (SeqV,)):
            return SeqV(v.ety, v.n, v.arr, "array")
        if isinstance(v, TupV):
            s = tup_to_seq(v)
            s.kind = "array"
            return s
        if isinstance(v, GenV):
            return L.list_of(I, v)
        raise Unsupported("np.array")

    def elementwise(self, I, v, f, line):
        if isinstance(v, TupV):
            v = tup_to_seq(v)
        if isinstance(v, GenV):
            v = L.list_of(I, v)
        if isinstance(v, SeqV):
            return L.vmap(I, [SeqV(v.ety, v.n, v.arr, "array")], f, line)
        return f(v)

    def b_numpy_abs(self, I, a, k, line):
        return self.elementwise(I, a[0], lambda x: self.b_abs(I, [x], {}, line), line)

    b_numpy_absolute = b_numpy_abs

    def b_numpy_floor(self, I, a, k, line):
        return self.elementwise(I, a[0], lambda x: Sc(REAL, z3.ToReal(z3.ToInt(x.term)) if x.ty == REAL else z3.ToReal(
            x.term)), line)

    def b_numpy_ceil(self, I, a, k, line):
        return self.elementwise(I, a[0], lambda x: Sc(REAL, -z3.ToReal(z3.ToInt(-coerce_term(x, REAL)))), line)

    b_math_floor = lambda self, I, a, k, line: Sc(INT, z3.ToInt(coerce_term(a[0], REAL)))
    b_math_ceil = lambda self, I, a, k, line: Sc(INT, -z3.ToInt(-coerce_term(a[0], REAL)))

    def b_numpy_sum(self, I, a, k, line):
        if len(a) == 1 and not k:
            return self.b_sum(I, a, k, line)
        raise Unsupported("np.sum with axis")

    def b_numpy_min(self, I, a, k, line):
        if len(a) == 1 and not k:
            return self.b_min(I, a, k, line)
        raise Unsupported("np.min with axis")

    def b_numpy_max(self, I, a, k, line):
        if len(a) == 1 and not k:
            return self.b_max(I, a, k, line)
        raise Unsupported("np.max with axis")

    b_numpy_amin, b_numpy_amax = b_numpy_min, b_numpy_max

    def b_numpy_minimum(self, I, a, k, line):
        return self.b_min(I, a, {}, line)

    def b_numpy_maximum(self, I, a, k, line):
        return self.b_max(I, a, {}, line)

    def b_numpy_diff(self, I, a, k, line):
        v = tup_to_seq(a[0]) if isinstance(a[0], TupV) else a[0]
        if len(a) != 1 or k or not isinstance(v, SeqV):
            raise Unsupported("np.diff")
        L.used(I, "numpy.diff: differences of neighbours")
        m = z3.If(v.n > 0, v.n - 1, z3.IntVal(0))
        arr = I.fresh("diff", v.arr.sort())
        j = I.bvar("j", z3.IntSort())
        I.assume(I.forall([j], z3.Implies(z3.And(0 <= j, j < m), z3.Select(arr, j) == z3.Select(v.arr, j + 1) - z3.Select(
            v.arr, j)), [z3.Select(arr, j)]))
        return SeqV(v.ety, m, arr, "array")

    def b_numpy_argsort(self, I, a, k, line):
        """a permutation that sorts the array"""
        v = a[0]
        if not isinstance(v, SeqV) or v.ety not in (INT, REAL) or k:
            raise Unsupported("argsort")
        L.used(I, "numpy.argsort: a permutation of the positions along which the array increases")
        o = I.fresh("argsort", z3.ArraySort(z3.IntSort(), z3.IntSort()))
        q = I.fresh_fn("rank", z3.IntSort(), z3.IntSort())
        i, j = I.bvar("i", z3.IntSort()), I.bvar("j", z3.IntSort())
        S = z3.Select
        I.assume(I.forall([j], z3.Implies(z3.And(0 <= j, j < v.n), z3.And(0 <= S(o, j), S(o, j) < v.n, q(S(o, j)) == j)), [S(o, j)]))
        I.assume(I.forall([j], z3.Implies(z3.And(0 <= j, j < v.n), z3.And(0 <= q(j), q(j) < v.n, S(o, q(j)) == j)), [q(j)]))
        I.assume(I.forall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < v.n), S(v.arr, S(o, i)) <= S(v.arr, S(o, j))),
                          [z3.MultiPattern(S(o, i), S(o, j))]))
        I.F.g.setdefault("argsort", []).append((v.arr, o))
        return SeqV(INT, v.n, o, "array")

    def b_numpy_median(self, I, a, k, line):
        v = tup_to_seq(a[0]) if isinstance(a[0], TupV) else a[0]
        if len(a) != 1 or k or not isinstance(v, SeqV) or v.ety not in (INT, REAL):
            raise Unsupported("np.median")
        L.used(I, "numpy.median: a function of the sequence")
        return Sc(REAL, theory.seqfn("median_" + v.ety.name, v.ety.sort(), z3.RealSort())(v.arr, v.n))

    def b_numpy_mean(self, I, a, k, line):
        v = tup_to_seq(a[0]) if isinstance(a[0], TupV) else a[0]
        if len(a) != 1 or k or not isinstance(v, SeqV) or v.ety not in (INT, REAL):
            raise Unsupported("np.mean")
        s = self.b_sum(I, [v], {}, line)
        return L.binop(I, ast.Div(), s, Sc(INT, v.n), line)

    def b_numpy_copy(self, I, a, k, line):
        if isinstance(a[0], SeqV):
            return SeqV(a[0].ety, a[0].n, a[0].arr, "array")
        raise Unsupported("np.copy")

    def b_numpy_any(self, I, a, k, line):
        return self._quant(I, a[0], True)

    def b_numpy_all(self, I, a, k, line):
        return self._quant(I, a[0], False)

    def b_numpy_issubdtype(self, I, a, k, line):
        nm = [getattr(x, "name", None) if isinstance(x, FnV) else None for x in a]
        if nm == ["numpy.int64", "numpy.integer"]:
            return Sc(BOOL, z3.BoolVal(True))
        return Sc(BOOL, I.fresh("subdtype", z3.BoolSort()))


def line_of(v):
    return 0


class LazyMap(GenV):
    """map(f, set): quantified over when given to any/all, enumerated otherwise"""

    def __init__(self, I, W, fn, src, line):
        self.lazy_map = (fn, src)
        self._mk = lambda: W.map_seq(I, fn, src, line)
        self._g = None
        self.wrap = None
        self.taint = frozenset()

    def _get(self):
        if self._g is None:
            self._g = self._mk()
        return self._g

    n = property(lambda s: s._get().n)
    get = property(lambda s: s._get().get)
    ety = property(lambda s: s._get().ety)
    seq = property(lambda s: getattr(s._get(), "seq", None))

    @property
    def pos(self):
        return self._get().pos

    @pos.setter
    def pos(self, v):
        self._get().pos = v


class _ChainEnv(dict):
    """environment of a closure call: writes are local, reads fall back to the enclosing one"""

    def __init__(self, parent):
        super().__init__()
        self.parent = parent

    def __contains__(self, k):
        return dict.__contains__(self, k) or k in self.parent

    def __getitem__(self, k):
        if dict.__contains__(self, k):
            return dict.__getitem__(self, k)
        return self.parent[k]

    def get(self, k, d=None):
        return self[k] if k in self else d

    def values(self):
        return list(dict.values(self)) + list(self.parent.values())

    def items(self):
        return list(self.parent.items()) + list(dict.items(self))


def static_isinstance(v, nm):
    nm = nm.split(".")[-1]
    table = {"int": (INT, BOOL), "float": (REAL,), "bool": (BOOL,), "Integral": (INT, BOOL), "Number": (INT, REAL, BOOL),
             "Real": (INT, REAL, BOOL)}
    if isinstance(v, Sc) and v.ty in (INT, REAL, BOOL):
        if nm in table:
            return v.ty in table[nm]
        return False
    if isinstance(v, SetV):
        return nm in ("set",) and not v.frozen or nm == "frozenset" and v.frozen
    if isinstance(v, SeqV):
        return nm == v.kind
    if isinstance(v, TupV):
        return nm == v.kind
    if isinstance(v, MapV):
        return nm == "dict" or nm == "SortedDict" and "sorted_keys" in v.__dict__
    if isinstance(v, NoneV):
        return False
    if isinstance(v, StrV):
        return nm == "str"
    return None


def log2(I, x):
    return theory.log2_fn()(x)


def psum(I, arr, n):
    """sum of arr[0..n)"""
    return theory.psum_fn(arr.sort().range())(arr, n)


def map_from_pairs(I, n, get):
    j = I.bvar("j", z3.IntSort())
    p = get(j)
    if not isinstance(p, TupV) or len(p.items) != 2:
        raise Unsupported("dict from pairs")
    kt, vt, kty, vty = to_term(p.items[0]), to_term(p.items[1]), p.items[0].ty, p.items[1].ty
    dom = I.fresh("dom", z3.ArraySort(kty.sort(), z3.BoolSort()))
    arr = I.fresh("val", z3.ArraySort(kty.sort(), vty.sort()))
    last = I.fresh_fn("last", kty.sort(), z3.IntSort())
    x = I.bvar("x", kty.sort())
    at = lambda t, y: z3.substitute(t, (j, y))
    I.assume(I.forall([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(z3.Select(dom, kt), last(kt) >= j)),
                      I.term_patterns(kt, kt, j)))
    I.assume(I.forall([x], z3.Implies(z3.Select(dom, x), z3.And(
        0 <= last(x), last(x) < n, at(kt, last(x)) == x, z3.Select(arr, x) == at(vt, last(x)))), [z3.Select(dom, x)]))
    m = MapV(kty, vty, dom, arr)
    m.last = last
    tn = getattr(p.items[1], "taint", frozenset())
    if tn:
        m.taint = tn
    return m


def sort_view(I, v, keyf, rev, world, line):
    """sorted(v, key=..., reverse=...): permutation + order"""
    n, get, ety = I.view(v)
    if ety is None:
        return SeqV(None, z3.IntVal(0), None)
    arr = I.fresh("sorted", z3.ArraySort(z3.IntSort(), ety.sort()))
    p = I.fresh_fn("perm", z3.IntSort(), z3.IntSort())
    q = I.fresh_fn("perminv", z3.IntSort(), z3.IntSort())
    j, i2 = I.bvar("j", z3.IntSort()), I.bvar("i", z3.IntSort())
    I.assume(I.forall([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(
        0 <= p(j), p(j) < n, q(p(j)) == j, z3.Select(arr, j) == to_term(get(p(j))))), [z3.Select(arr, j)]))
    src = to_term(get(j))
    pats = [src] if z3.is_app(src) and src.num_args() and not z3.is_quantifier(src) else None
    body = z3.Implies(z3.And(0 <= j, j < n), z3.And(
        0 <= q(j), q(j) < n, p(q(j)) == j, z3.Select(arr, q(j)) == src))
    I.assume(I.forall([j], body, pats))
    I.assume(I.forall([j], body, [q(j)]))
    if z3.is_app(src) and src.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
        sub = next((a for a in src.children() if z3.is_select(a) and a.arg(1).eq(j)), None)
        if sub is not None:
            I.assume(I.forall([j], body, [sub]))
    r = SeqV(ety, n, arr)
    r.perm, r.perminv = p, q

    def keyof(t):
        x = from_term(ety, t)
        return x if keyf is None else world.apply(I, keyf, [x], {}, line)
    outer = list(I.bound)
    I.bound.append(([j, i2], [0 <= i2, i2 < j, j < n]))
    try:
        try:
            k1, k2 = keyof(z3.Select(arr, i2)), keyof(z3.Select(arr, j))
            if isinstance(k1, (Sc, StrV)) and isinstance(k2, (Sc, StrV)) or isinstance(k1, TupV) and I.c.tuple_order:
                le = L.compare(I, ast.GtE() if rev else ast.LtE(), k1, k2, line).term
            else:
                le = None
        except Unsupported:
            le = None
    finally:
        I.bound[:] = outer
    if le is not None:
        I.assume(z3.ForAll([j, i2], z3.Implies(z3.And(0 <= i2, i2 < j, j < n), le),
                           patterns=[z3.MultiPattern(z3.Select(arr, i2), z3.Select(arr, j))]))
    tn = getattr(v, "taint", frozenset())
    if tn:
        r.taint = tn
    return r


def union_of(I, v):
    """the set of the elements of the elements of a list"""
    if not isinstance(v, SeqV):
        raise Unsupported("*" + type(v).__name__)
    if v.ety is None:
        return SetV(None, None)
    if v.ety.kind not in ("seq", "set"):
        raise Unsupported("elements of elements")
    ety = v.ety.args[0]
    U = I.fresh("union", z3.ArraySort(ety.sort(), z3.BoolSort()))
    wj = I.fresh_fn("wj", ety.sort(), z3.IntSort())
    x, j, i = I.bvar("x", ety.sort()), I.bvar("j", z3.IntSort()), I.bvar("i", z3.IntSort())
    if v.ety.kind == "set":
        e = z3.Select(z3.Select(v.arr, j), x)
        I.assume(I.forall([j, x], z3.Implies(z3.And(0 <= j, j < v.n, e), z3.Select(U, x)), [e]))
        I.assume(I.forall([x], z3.Implies(z3.Select(U, x), z3.And(0 <= wj(x), wj(x) < v.n, z3.Select(z3.Select(v.arr, wj(x)), x))), [z3.Select(U, x)]))
        return SetV(ety, U)
    s = v.ety.sort()
    ln, ar = s.accessor(0, 0), s.accessor(0, 1)
    wi = I.fresh_fn("wi", ety.sort(), z3.IntSort())
    at = lambda j, i: z3.Select(ar(z3.Select(v.arr, j)), i)
    I.assume(I.forall([j, i], z3.Implies(z3.And(0 <= j, j < v.n, 0 <= i, i < ln(z3.Select(v.arr, j))), z3.Select(U, at(j, i))), [at(j, i)]))
    I.assume(I.forall([x], z3.Implies(z3.Select(U, x), z3.And(0 <= wj(x), wj(x) < v.n, 0 <= wi(x), wi(x) < ln(z3.Select(v.arr, wj(x))),
                                                              at(wj(x), wi(x)) == x)), [z3.Select(U, x)]))
    return SetV(ety, U)


def propagate(I, cont):
    """elements of cont were changed in place by a callee: whatever shares them is unknown"""
    L.stale(I, cont)
    tags = getattr(cont, "taint", frozenset())
    if not tags:
        return

    def walk(v, seen):
        if v is None or id(v) in seen:
            return
        seen.add(id(v))
        if id(v) in tags:
            I.havoc_in_place(v)
        if isinstance(v, RecV):
            for x in v.attrs.values():
                walk(x, seen)
        if isinstance(v, TupV):
            for x in v.items:
                walk(x, seen)
    seen = set()
    for v in list(I.env.values()) + list(I.F.args):
        walk(v, seen)


# ---------------------------------------------------------------- container methods
def container_method(I, s, name, args, kwargs, line, W):
    if isinstance(s, SetV):
        return set_method(I, s, name, args, kwargs, line, W)
    if isinstance(s, SeqV):
        return seq_method(I, s, name, args, kwargs, line, W)
    if isinstance(s, MapV):
        return map_method(I, s, name, args, kwargs, line, W)
    if isinstance(s, TupV) and s.kind == "list":
        if name == "append":
            q = tup_to_seq(s)
            raise Unsupported("append to fixed list")
    if isinstance(s, FnV) and s.kind == "keysview":
        return None
    if isinstance(s, StrV) or (isinstance(s, Sc) and s.ty == OBJ):
        if name in ("join", "format", "strip", "rstrip", "lower", "replace"):
            return Sc(OBJ, I.fresh("text", OBJ_SORT))
    if isinstance(s, Sc) and s.ty in (INT, REAL) and name in ("item",):
        return s
    if isinstance(s, FnV) and s.kind == "global":
        return None
    return None


def set_method(I, s, name, a, k, line, W):
    if getattr(s, "keyed", None) is not None:
        if name == "irange":
            if s.ety is None:
                return SetV(None, None)
            lo, hi = (a + [NONE, NONE])[:2]
            lo, hi = k.get("minimum", lo), k.get("maximum", hi)
            kf = lambda v: v if isinstance(s.keyed, NoneV) else W.apply(I, s.keyed, [v], {}, line)
            klo = None if isinstance(lo, NoneV) else kf(lo)
            khi = None if isinstance(hi, NoneV) else kf(hi)
            x = I.bvar("x", s.ety.sort())
            outer = list(I.bound)
            I.bound.append(([x], [z3.Select(s.arr, x)]))
            try:
                kx = kf(from_term(s.ety, x))
                cs = [z3.Select(s.arr, x)]
                if klo is not None:
                    cs.append(L.compare(I, ast.LtE(), klo, kx, line).term)
                if khi is not None:
                    cs.append(L.compare(I, ast.LtE(), kx, khi, line).term)
            finally:
                I.bound[:] = outer
            r = I.fresh("irange", s.arr.sort())
            I.assume(I.forall([x], z3.Select(r, x) == z3.And(*cs), [z3.Select(r, x)]))
            I.assume(I.forall([x], z3.Select(r, x) == z3.And(*cs), [z3.Select(s.arr, x)]))
            return SetV(s.ety, r)
        if name not in ("add", "update"):
            return None
    if name == "copy":
        r = SetV(s.ety, s.arr, s.frozen)
        return r
    if name in ("add",):
        if s.ety is None:
            if a[0].ty is None:
                raise Unsupported("untyped element")
            settle(s, SetT(a[0].ty))
        s.arr = z3.Store(s.arr, coerce_term(a[0], s.ety), z3.BoolVal(True))
        L.touch(I, s)
        return NONE
    if name in ("discard", "remove"):
        if s.ety is None:
            return NONE
        t = coerce_term(a[0], s.ety)
        if name == "remove":
            I.safe("KeyError", z3.Select(s.arr, t), line, "KeyError")
        s.arr = z3.Store(s.arr, t, z3.BoolVal(False))
        L.touch(I, s)
        return NONE
    if name in ("union", "intersection", "difference", "symmetric_difference"):
        op = {"union": "or", "intersection": "and", "difference": "sub", "symmetric_difference": "xor"}[name]
        r = s
        for x in a:
            if isinstance(x, FnV) and x.kind == "star":
                if name not in ("union", "difference"):
                    raise Unsupported("set." + name + "(*...)")
                xs = union_of(I, x.val)
            else:
                xs = L.as_set(I, x)
            if r.ety is None and xs.ety is None:
                r = SetV(None, None)
                continue
            if r.ety is None:
                r = SetV(None, None)
                settle(r, xs.ty)
            if xs.ety is None:
                xs = SetV(None, None)
                settle(xs, r.ty)
            r = SetV(r.ety, L.set_op(I, op, r, xs), s.frozen)
        if not a:
            r = SetV(s.ety, s.arr, s.frozen)
        return r
    if name in ("update", "difference_update", "intersection_update"):
        op = {"update": "or", "difference_update": "sub", "intersection_update": "and"}[name]
        for x in a:
            xs = L.as_set(I, x)
            if xs.ety is None:
                continue
            if s.ety is None:
                settle(s, xs.ty)
            s.arr = L.set_op(I, op, s, xs)
        L.touch(I, s)
        return NONE
    if name in ("issubset", "issuperset", "isdisjoint"):
        o = L.as_set(I, a[0].map if isinstance(a[0], FnV) and a[0].kind == "keysview" else a[0])
        if o.ety is None:
            o = SetV(None, None)
            settle(o, s.ty)
        if s.ety is None:
            settle(s, o.ty)
        if name == "issubset":
            return Sc(BOOL, L.subset(I, s.arr, o.arr, s.ety))
        if name == "issuperset":
            return Sc(BOOL, L.subset(I, o.arr, s.arr, s.ety))
        x = I.bvar("x", s.ety.sort())
        return Sc(BOOL, z3.ForAll([x], z3.Not(z3.And(z3.Select(s.arr, x), z3.Select(o.arr, x)))))
    if name == "intersection_cardinality":
        t = L.set_op(I, "and", s, a[0])
        return Sc(INT, I.card(t, s.ety))
    if name == "pop":
        x = I.fresh("popped", s.ety.sort())
        I.safe("pop-empty", I.truth(s), line, "KeyError")
        I.assume(z3.Select(s.arr, x))
        s.arr = z3.Store(s.arr, x, z3.BoolVal(False))
        return from_term(s.ety, x)
    return None


def seq_method(I, s, name, a, k, line, W):
    if name == "index" and len(a) == 1 and s.ety is not None and not I.bound:
        I.safe("index", L.contains(I, a[0], s, line), line, "ValueError")
        b, x, j = I.fresh("index", z3.IntSort()), coerce_term(a[0], s.ety), I.bvar("j", z3.IntSort())
        I.assume(z3.And(0 <= b, b < s.n, z3.Select(s.arr, b) == x))
        I.assume(I.forall([j], z3.Implies(z3.And(0 <= j, j < b), z3.Select(s.arr, j) != x), [z3.Select(s.arr, j)]))
        return Sc(INT, b)
    if getattr(s, "sorted_set", False) and name in ("bisect_left", "bisect_right", "bisect") and len(a) == 1:
        b, x, j = I.fresh("bisect", z3.IntSort()), coerce_term(a[0], s.ety), I.bvar("j", z3.IntSort())
        below = (lambda t: t < x) if name == "bisect_left" else (lambda t: t <= x)
        I.assume(z3.And(0 <= b, b <= s.n))
        I.assume(I.forall([j], z3.Implies(z3.And(0 <= j, j < s.n), (j < b) == below(z3.Select(s.arr, j))),
                          [z3.Select(s.arr, j)]))
        return Sc(INT, b)
    if s.kind == "array":
        if name in ("any", "all") and not a and not k:
            return W._quant(I, s, name == "any")
        if name == "copy":
            return SeqV(s.ety, s.n, s.arr, "array")
        if name == "tolist":
            return SeqV(s.ety, s.n, s.arr)
        if name in ("min", "max", "sum") and not a and not k:
            return getattr(W, "b_" + name)(I, [s], {}, line)
        if name in ("append", "extend", "insert", "pop", "remove", "sort", "index", "count"):
            return None
    if name == "append":
        v = a[0]
        if s.ety is None:
            if v.ty is None:
                raise Unsupported("untyped element")
            settle(s, SeqT(v.ty))
        s.arr = z3.Store(s.arr, s.n, coerce_term(v, s.ety))
        s.n = z3.simplify(s.n + 1)
        tn = getattr(v, "taint", frozenset())
        if tn:
            s.taint = getattr(s, "taint", frozenset()) | tn
        L.touch(I, s)
        return NONE
    if name == "extend":
        o = L.list_of(I, a[0])
        if isinstance(o, TupV):
            o = tup_to_seq(o)
        r = L.concat(I, s, o)
        s.ety, s.n, s.arr = r.ety, r.n, r.arr
        L.touch(I, s)
        return NONE
    if name == "insert":
        if s.ety is None:
            settle(s, SeqT(a[1].ty))
        p = a[0].term
        p = z3.If(p < 0, p + s.n, p)
        p = z3.If(p < 0, z3.IntVal(0), z3.If(p > s.n, s.n, p))
        arr = I.fresh("ins", s.arr.sort())
        j = I.bvar("j", z3.IntSort())
        old, n, t = s.arr, s.n, coerce_term(a[1], s.ety)
        I.assume(z3.Select(arr, p) == t)
        I.assume(I.forall([j], z3.And(z3.Implies(z3.And(0 <= j, j < p), z3.Select(arr, j) == z3.Select(old, j)),
                                      z3.Implies(z3.And(j > p, j <= n), z3.Select(arr, j) == z3.Select(old, j - 1))),
                          [z3.Select(arr, j)]))
        I.assume(I.forall([j], z3.Implies(z3.And(0 <= j, j < n), z3.Or(
            z3.And(j < p, z3.Select(arr, j) == z3.Select(old, j)),
            z3.And(j >= p, z3.Select(arr, j + 1) == z3.Select(old, j)))), [z3.Select(old, j)]))
        s.arr, s.n = arr, z3.simplify(n + 1)
        s.ins_pos = p
        return NONE
    if name == "remove":
        # removes the first occurrence; ValueError when absent
        v = a[0]
        p = I.fresh("rmpos", z3.IntSort())
        j = I.bvar("j", z3.IntSort())
        old, n = s.arr, s.n
        tv = coerce_term(v, s.ety)
        x = from_term(s.ety, tv)
        eqj = lambda t: L.equal(I, from_term(s.ety, z3.Select(old, t)), x)
        j2 = I.bvar("j", z3.IntSort())
        I.safe("remove-absent", z3.Exists([j2], z3.And(0 <= j2, j2 < n, eqj(j2))), line, "ValueError")
        I.assume(z3.And(0 <= p, p < n, eqj(p)))
        I.assume(I.forall([j], z3.Implies(z3.And(0 <= j, j < p), z3.Not(eqj(j)))))
        arr = I.fresh("rm", s.arr.sort())
        I.assume(I.forall([j], z3.And(z3.Implies(z3.And(0 <= j, j < p), z3.Select(arr, j) == z3.Select(old, j)),
                                      z3.Implies(z3.And(p <= j, j < n - 1), z3.Select(arr, j) == z3.Select(old, j + 1))),
                          [z3.Select(arr, j)]))
        I.assume(I.forall([j], z3.Implies(z3.And(0 <= j, j < n, j != p), z3.Or(
            z3.And(j < p, z3.Select(arr, j) == z3.Select(old, j)),
            z3.And(j > p, z3.Select(arr, j - 1) == z3.Select(old, j)))), [z3.Select(old, j)]))
        s.arr, s.n = arr, z3.simplify(n - 1)
        s.rm_pos, s.rm_val = p, tv
        return NONE
    if name == "pop":
        I.safe("pop-empty", s.n > 0, line, "IndexError")
        if not a or (isinstance(a[0], Sc) and z3.is_int_value(z3.simplify(a[0].term))
                     and z3.simplify(a[0].term).as_long() == -1):
            v = from_term(s.ety, z3.Select(s.arr, s.n - 1))
            s.n = z3.simplify(s.n - 1)
            return v
        if isinstance(a[0], Sc) and z3.is_int_value(z3.simplify(a[0].term)) \
                and z3.simplify(a[0].term).as_long() == 0:
            v = from_term(s.ety, z3.Select(s.arr, 0))
            arr = I.fresh("pop0", s.arr.sort())
            j = I.bvar("j", z3.IntSort())
            old = s.arr
            I.assume(I.forall([j], z3.Select(arr, j) == z3.Select(old, j + 1), [z3.Select(arr, j)]))
            s.arr, s.n = arr, z3.simplify(s.n - 1)
            return v
        raise Unsupported("pop index")
    if name == "copy":
        return SeqV(s.ety, s.n, s.arr, s.kind)
    if name == "tolist":
        return SeqV(s.ety, s.n, s.arr, "list")
    if name == "sort":
        r = W.b_sorted(I, [s], k, line)
        s.arr = r.arr
        return NONE
    if name == "reverse":
        r = L.reverse_seq(I, s)
        s.arr = r.arr
        return NONE
    if name == "sum" and s.ety in (INT, REAL):
        return W.b_sum(I, [s], {}, line)
    return None


def map_method(I, s, name, a, k, line, W):
    if name == "items":
        if s.kty is None:
            return SeqV(None, z3.IntVal(0), None)
        n, get, _ = I.enum_map(s)
        arr, kty, vty = s.arr, s.kty, s.vty
        sid = id(s)

        def gi(i):
            kk = get(i)
            v = from_term(vty, z3.Select(arr, to_term(kk)))
            if not isinstance(v, Sc):
                v.origin = (s, to_term(kk))
                v.taint = frozenset([sid])
            return TupV([kk, v])
        g = GenV(n, gi, z3.IntVal(0), TupT(kty, vty))
        g.items_of = s
        return g
    if name == "keys":
        return FnV("keysview", map=s)
    if name == "values":
        if s.kty is None:
            return SeqV(None, z3.IntVal(0), None)
        n, get, _ = I.enum_map(s)
        arr, vty = s.arr, s.vty
        sid = id(s)

        def gv(i):
            v = from_term(vty, z3.Select(arr, to_term(get(i))))
            if not isinstance(v, Sc):
                v.taint = frozenset([sid])
            return v
        g = GenV(n, gv, z3.IntVal(0), vty)
        g.values_of = s
        I.c.values_hook(I, s, n, gv)
        return g
    if name == "copy":
        r = MapV(s.kty, s.vty, s.dom, s.arr, s.default, s.order)
        r.taint = frozenset([id(s)]) | getattr(s, "taint", frozenset())
        return r
    if name == "update":
        o = a[0]
        if not isinstance(o, MapV):
            raise Unsupported("update with non-map")
        L.map_update(I, s, o)
        tn = getattr(o, "taint", frozenset()) | frozenset([id(o)])
        if s.vty is not None and s.vty.kind not in SCALARS:
            s.taint = getattr(s, "taint", frozenset()) | tn
        return NONE
    if name == "get":
        kk = coerce_term(a[0], s.kty)
        d = a[1] if len(a) > 1 else NONE
        v = from_term(s.vty, z3.Select(s.arr, kk))
        if isinstance(d, NoneV):
            if I.decide(z3.Select(s.dom, kk)):
                return v
            return NONE
        return I.merge(z3.Select(s.dom, kk), v, d)
    if name == "pop":
        kk = coerce_term(a[0], s.kty)
        if len(a) == 1:
            I.safe("KeyError", z3.Select(s.dom, kk), line, "KeyError")
        v = from_term(s.vty, z3.Select(s.arr, kk))
        if len(a) > 1:
            if not isinstance(a[1], NoneV):
                v = I.merge(z3.Select(s.dom, kk), v, a[1])
            else:
                v = OpaqueV("pop")
        s.dom = z3.Store(s.dom, kk, z3.BoolVal(False))
        s.order = None
        return v
    return None
