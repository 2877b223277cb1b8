"""patterns written to and read from a file (skmine/periodic/cycles.py)"""
from pyvc.contract import *
from pyvc.spec import *
from pyvc import lib as L, theory

MOD = "skmine/periodic/cycles.py"
ME = f"{MOD}::PeriodicPatternMiner"
PC, DSQ, PAT = "skmine/periodic/pattern_collection.py::PatternCollection", "skmine/periodic/data_sequence.py::DataSequence", "skmine/periodic/pattern.py::Pattern"
IS, OS = z3.IntSort(), OBJ.sort()
TIMES = SeqT(INT)
GROUPS = MapT(OBJ, TIMES)
TRIPLE = TupT(OBJ, OBJ, OBJ)
OBJS, FLAG = z3.ArraySort(OS, OS), z3.ArraySort(OS, z3.BoolSort())
# what a dictionary read from a file holds
HAS, GET, WITHOUT = z3.Function("has_key", OS, OS, z3.BoolSort()), z3.Function("value_at", OS, OS, OS), z3.Function("without", OS, OS, OS)
TREE, CONV = z3.Function("the_tree", OS, OS), z3.Function("integer_keys", OS, OS)
txt = lambda s: theory.text_const(s)
SPECIAL = ("next_id", "t0", "E")


def axioms():
    a, b, k, q = (bv(OBJ, "c") for _ in range(4))
    special = Or(*[k == txt(s) for s in SPECIAL])
    return [FA([k, q, a], HAS(k, WITHOUT(q, a)) == And(HAS(k, a), k != q), [HAS(k, WITHOUT(q, a))]),
            FA([k, q, a], Implies(k != q, GET(k, WITHOUT(q, a)) == GET(k, a)), [GET(k, WITHOUT(q, a))]),
            FA([k, a], HAS(k, TREE(a)) == And(HAS(k, a), Not(special)), [HAS(k, TREE(a))]),
            FA([k, a], Implies(Not(special), GET(k, TREE(a)) == GET(k, a)), [GET(k, TREE(a))])]


def _open(I, a, k, line):
    L.used(I, "open and json.load / json.dumps: the file gives back the value written to it")
    mode = a[1] if len(a) > 1 else k.get("mode", StrV("r"))
    if not isinstance(mode, StrV) or mode.s not in ("r", "w", "rt", "wt") or set(k) - {"mode", "encoding"}:
        raise Unsupported("open")
    return RecV("file", {"path": a[0], "mode": StrV(mode.s[0])})


def _load(I, a, k, line):
    if len(a) == 1 and not k and isinstance(a[0], RecV) and a[0].cls == "file" and a[0].attrs["mode"].s == "r" and a[0].attrs["path"] is I.F.args[1]:
        return I.F.g["read"]
    raise Unsupported("json.load")


def _pop(I, s, a, k, line):
    if len(a) != 1 or k or not isinstance(a[0], StrV) or s.ty != OBJ:
        raise Unsupported("pop")
    g, key = I.F.g, txt(a[0].s)
    now = Select(g["state"], s.term)
    I.safe("KeyError", HAS(key, now), line, "KeyError")
    g["state"] = z3.Store(g["state"], s.term, WITHOUT(key, now))
    return Sc(OBJ, GET(key, now))


def _item(I, base, key, line):
    if isinstance(base, Sc) and base.ty == OBJ and isinstance(key, StrV):
        now = Select(I.F.g["state"], base.term)
        I.safe("KeyError", HAS(txt(key.s), now), line, "KeyError")
        return Sc(OBJ, GET(txt(key.s), now))


def _convert(I, a, k, line):
    if len(a) != 1 or k or not isinstance(a[0], Sc):
        raise Unsupported("conversion of keys")
    L.used(I, "_iterdict_str_to_int_keys: the dictionary with the keys that read as integers turned into integers (bounded)")
    x, t, q = Select(I.F.g["state"], a[0].term), TREE(Select(I.F.g["start"], a[0].term)), bv(OBJ, "q")
    # two dictionaries with the same keys and values are the same
    I.try_lemma("tree", FA(q, And(HAS(q, x) == HAS(q, t), Implies(HAS(q, x), GET(q, x) == GET(q, t)))), CONV(x) == CONV(t))
    return Sc(OBJ, CONV(x))


def _pattern(I, a, k, line):
    if a or k:
        raise Unsupported("Pattern(...)")
    g = I.F.g
    p = I.fresh("pattern", OS)
    I.pc.append(Not(Select(g["made"], p)))
    g["made"] = z3.Store(g["made"], p, T)
    return Sc(OBJ, p)


def _set(I, base, attr, v, line):
    if isinstance(base, Sc) and base.ty == OBJ and attr in ("next_id", "nodes") and isinstance(v, Sc) and v.ty == OBJ:
        I.F.g[attr] = z3.Store(I.F.g[attr], base.term, v.term)
        return True


def _collection(I, a, k, line):
    v = a[0] if len(a) == 1 and not k else k.get("patterns") if not a and set(k) == {"patterns"} else None
    if v is None:
        raise Unsupported("PatternCollection")
    L.used(I, "PatternCollection(patterns=l): the collection of these, in this order")
    return RecV(PC, {"patterns": settled(v, SeqT(TRIPLE))})


def _sequence(I, a, k, line):
    if len(a) != 1 or k:
        raise Unsupported("DataSequence")
    return RecV(DSQ, {"of": a[0]})


def _index(I, a, k, line):
    if len(a) != 1 or k:
        raise Unsupported("pd.Index")
    L.used(I, "pandas.Index(l), Index.to_list: the same values in the same order")
    return a[0]


class Import(Contract):
    """everything is taken from the file: scale, kind of times, the log, and the patterns with their start, corrections and tree, in order"""
    target = f"{ME}.import_patterns"
    world_extra = {"open": _open, "json.load": _load, "class Pattern": _pattern, "class PatternCollection": _collection,
                   "class DataSequence": _sequence, "pandas.Index": _index, f"{MOD}::_iterdict_str_to_int_keys": _convert}
    world_methods = {("Sc", "pop"): _pop}
    getitem_hooks = [_item]
    setattr_hooks = [_set]
    KEPT = ("n_zeros_", "div_nb_sec_", "is_datetime_")
    modifies = tuple((0, k) for k in KEPT + ("alpha_groups_", "data_details_", "miners_"))

    def make_args(self, I):
        return [RecV(ME, {}), I.fresh_val("file", OBJ)]

    def setup(self, I, F):
        g = F.g
        g["read"] = RecV("dict", {"n_zeros_": I.fresh_val("n_zeros", INT), "div_nb_sec_": I.fresh_val("div", INT), "is_datetime_": I.fresh_val("dt", BOOL),
                                  "data_details": I.fresh_val("details", GROUPS), "patterns": I.fresh_val("patterns", SeqT(OBJ))})
        g["was"] = clone(g["read"], {})
        g["state"] = g["start"] = I.fresh("state", OBJS)
        g["nodes"], g["next_id"], g["made"] = I.fresh("nodes", OBJS), I.fresh("next_id", OBJS), I.fresh("made", FLAG)
        p, i, j = g["was"].attrs["patterns"], *ints(2)
        at = lambda i: Select(p.arr, i)
        L.used(I, "the objects of a list read from a file are different objects")
        I.pc += axioms()
        I.pc += [FA([i, j], Implies(And(0 <= i, i < j, j < p.n), at(i) != at(j)), [z3.MultiPattern(at(i), at(j))]),
                 FA(i, Implies(rng(i, 0, p.n), And(*[HAS(txt(s), Select(g["start"], at(i))) for s in SPECIAL])), [at(i)])]
        ts = [txt(s) for s in SPECIAL]
        I.pc.append(z3.Distinct(*ts))

    def read_so_far(self, F, l, k):
        g, p = F.g, F.g["was"].attrs["patterns"]
        c = lambda j: Select(g["start"], Select(p.arr, j))
        s = TRIPLE.sort()
        e = lambda j, x: s.accessor(0, x)(Select(l.arr, j))
        i, j = ints(2)
        pat = Select(l.arr, j)
        return [("number", l.n == k),
                ("start", FA(j, Implies(rng(j, 0, k), e(j, 1) == GET(txt("t0"), c(j))), [pat])),
                ("corrections", FA(j, Implies(rng(j, 0, k), e(j, 2) == GET(txt("E"), c(j))), [pat])),
                ("tree", FA(j, Implies(rng(j, 0, k), Select(g["nodes"], e(j, 0)) == CONV(TREE(c(j)))), [pat])),
                ("next-id", FA(j, Implies(rng(j, 0, k), Select(g["next_id"], e(j, 0)) == GET(txt("next_id"), c(j))), [pat])),
                ("made", FA(j, Implies(rng(j, 0, k), Select(g["made"], e(j, 0))), [pat])),
                ("one-each", FA([i, j], Implies(And(0 <= i, i < j, j < k), e(i, 0) != e(j, 0)), [z3.MultiPattern(Select(l.arr, i), pat)]))]

    def loop_spec(self, Lc, ordn, depth):
        I, F = Lc.I, Lc.I.F
        if depth:
            return None

        def inv(Lc, k):
            l = next((v for v in (Lc.I.env.get(n) for n in sorted(Lc.I.env)) if isinstance(v, (SeqV, TupV)) and v is not Lc.itv and
                      settles(v)), None)
            if l is None:
                return [("list", F_)]
            l = settled(l, SeqT(TRIPLE))
            p, j = F.g["was"].attrs["patterns"], ints(1)
            return self.read_so_far(F, l, k) + [("rest", FA(j, Implies(rng(j, k, p.n), Select(F.g["state"], Select(p.arr, j)) == Select(F.g["start"], Select(p.arr, j))), [Select(p.arr, j)]))]
        return LoopSpec(inv)

    def havoc_ghost(self, I, Lc):
        g = I.F.g
        for k, s in (("made", FLAG), ("nodes", OBJS), ("next_id", OBJS), ("state", OBJS)):
            g[k] = I.fresh(k, s)

    def fresh_result(self, I, F):
        return NONE

    def ensures(self, F, res):
        me, w = F.args[0].attrs, F.g["was"].attrs
        out = []
        for k in self.KEPT:
            v = me.get(k)
            out.append((k, v.term == w[k].term if isinstance(v, Sc) and v.ty == w[k].ty else F_))
        d, e = w["data_details"], bv(OBJ, "e")
        of = me.get("data_details_")
        for n, v in (("groups", me.get("alpha_groups_")), ("details", of.attrs.get("of") if isinstance(of, RecV) and of.cls == DSQ else None)):
            if isinstance(v, MapV):
                v = as_type(v, GROUPS)
            out.append((n, FA(e, And(Select(v.dom, e) == Select(d.dom, e), Implies(Select(d.dom, e), Select(v.arr, e) == Select(d.arr, e)))) if isinstance(v, MapV) and v.ty == GROUPS else F_))
        c = me.get("miners_")
        l = c.attrs.get("patterns") if isinstance(c, RecV) and c.cls == PC else None
        return out + (self.read_so_far(F, l, w["patterns"].n) if isinstance(l, SeqV) else [("patterns", F_)])


def settles(v):
    if isinstance(v, TupV):
        return not v.items
    return v.ety is None or v.ety == TRIPLE


TREES, INDEXES = SeqT(OBJ), MapT(OBJ, OBJ)
LIST_OF = z3.Function("list_of_index", OS, OS)      # a list can be written as JSON, an index cannot


def _transform(I, s, a, k, line):
    L.used(I, "PeriodicPatternMiner.transform: puts the patterns found in self.cycles (P12)")
    s.attrs["cycles"] = RecV("frame", {})
    return NONE


def _column(I, base, key, line):
    if isinstance(base, RecV) and base.cls == "frame" and isinstance(key, StrV) and key.s == "pattern_json_tree":
        return I.F.g["trees"]


def _values(I, base, attr, line):
    if isinstance(base, SeqV) and attr == "values":
        return base


def _to_list(I, s, a, k, line):
    if not a and not k and s.ty == OBJ:
        L.used(I, "pandas.Index(l), Index.to_list: the same values in the same order")
        return Sc(OBJ, LIST_OF(s.term))


def _dumps(I, a, k, line):
    if len(a) == 1 and not k and isinstance(a[0], RecV) and a[0].cls == "dict" or isinstance(a[0], MapV):
        t = Sc(OBJ, I.fresh("json", OS))
        I.F.g["json"].append((t.term, clone(a[0], {})))
        return t
    raise Unsupported("json.dumps")


def _write(I, s, a, k, line):
    if len(a) != 1 or k or s.attrs["mode"].s != "w":
        raise Unsupported("write")
    I.F.g["log"].append((s.attrs["path"], a[0]))
    return NONE


def _dump(I, a, k, line):
    if len(a) == 2 and not k and isinstance(a[1], RecV) and a[1].cls == "file":
        return _write(I, a[1], [_dumps(I, a[:1], {}, line)], {}, line)
    raise Unsupported("json.dump")


class Export(Contract):
    """one value is written, to the file given: the scale, the kind of times, the times of each event, and the tree of each pattern in order;
    the model is left as it was"""
    target = f"{ME}.export_patterns"
    world_extra = {"open": _open, "json.dumps": _dumps, "json.dump": _dump}
    world_methods = {(ME, "transform"): _transform, ("Sc", "to_list"): _to_list, ("Sc", "tolist"): _to_list, ("file", "write"): _write}
    getitem_hooks = [_column]
    attr_hooks = [_values]
    KEPT = Import.KEPT
    modifies = ((0, "cycles"),)

    def make_args(self, I):
        return [RecV(ME, {"n_zeros_": I.fresh_val("n_zeros", INT), "div_nb_sec_": I.fresh_val("div", INT), "is_datetime_": I.fresh_val("dt", BOOL),
                          "alpha_groups_": I.fresh_val("groups", INDEXES)}), I.fresh_val("file", OBJ)]

    def setup(self, I, F):
        F.g.update(trees=I.fresh_val("trees", TREES), log=[], json=[])
        F.g["trees_"] = clone(F.g["trees"], {})

    def loop_spec(self, Lc, ordn, depth):
        F = Lc.I.F
        if depth or Lc.n is None:
            return None
        d, e = F.old[0].attrs["alpha_groups_"], bv(OBJ, "e")
        pos = getattr(Lc.I, "last_enum", None)
        if pos is None:
            return None
        pos = pos[2]

        def inv(Lc, k):
            out = []
            for n in sorted(Lc.I.env):
                v = Lc.I.env[n]
                if isinstance(v, MapV) and v is not F.args[0].attrs["alpha_groups_"]:
                    v = as_type(v, INDEXES)
                    if v.ty == INDEXES:
                        out.append(("keys." + str(len(out)), FA(e, Select(v.dom, e) == Select(d.dom, e), [Select(v.dom, e)])))
                        out.append(("listed." + str(len(out)), FA(e, Implies(Select(d.dom, e), Select(v.arr, e) == If(
                            pos(e) < k, LIST_OF(Select(d.arr, e)), Select(d.arr, e))), [Select(v.arr, e)])))
            return out
        return LoopSpec(inv)

    def fresh_result(self, I, F):
        return NONE

    def ensures(self, F, res):
        g, was, me = F.g, F.old[0].attrs, F.args[0].attrs
        if len(g["log"]) != 1:
            return [("one-value", F_)]
        path, text = g["log"][0]
        val = next((v for t, v in g["json"] if isinstance(text, Sc) and t.eq(text.term)), None)
        if not (isinstance(val, RecV) and set(val.attrs) == set(self.KEPT) | {"data_details", "patterns"}):
            return [("what-is-written", F_)]
        out = [("file", z3.BoolVal(path is F.args[1]))]
        v = val.attrs
        for k in self.KEPT:
            out.append((k, v[k].term == was[k].term if isinstance(v[k], Sc) and v[k].ty == was[k].ty else F_))
        d, e, j = was["alpha_groups_"], bv(OBJ, "e"), ints(1)
        same = lambda m, f: FA(e, And(Select(m.dom, e) == Select(d.dom, e), Implies(Select(d.dom, e), Select(m.arr, e) == f(Select(d.arr, e))))) if isinstance(m, MapV) and m.ty == INDEXES else F_
        out += [("details", same(v["data_details"], LIST_OF)), ("model-kept", same(me["alpha_groups_"], lambda x: x))]
        p, t = v["patterns"], g["trees_"]
        return out + [("patterns", And(p.n == t.n, FA(j, Implies(rng(j, 0, t.n), Select(p.arr, j) == Select(t.arr, j)))) if isinstance(p, SeqV) and p.ety == OBJ else F_)]
