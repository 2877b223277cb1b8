"""search of GraphMDL over code tables (skmine/graph/graphmdl/graph_mdl.py)

A code table is seen as the set of its rows; cover() brings usages and rewritten graph in step with it.
The description length DL is a function of that set."""
from pyvc.contract import *
from pyvc.spec import *
from pyvc import lib as L, theory

MOD = "skmine/graph/graphmdl/graph_mdl.py"
ME, CT = f"{MOD}::GraphMDL", "skmine/graph/graphmdl/code_table.py::CodeTable"
RSET, ROWS = SetT(OBJ), SeqT(OBJ)
DL = z3.Function("description_length", RSET.sort(), z3.RealSort())
RW = z3.Function("rewritten_graph", RSET.sort(), OBJ.sort())


def same(a, b):
    x = bv(OBJ, "r")
    return FA(x, Select(a, x) == Select(b, x))


class _Table(Contract):
    trusted = True

    def adapt_args(self, I, vals):
        if not (isinstance(vals[0], RecV) and "g_rows" in vals[0].attrs):
            raise Unsupported("code table")
        return vals


class AddRow(_Table):
    """the row joins the table"""
    target = f"{CT}.add_row"
    modifies = ((0, "g_rows"),)

    def requires(self, F):
        return [("new", Not(Select(F.args[0].attrs["g_rows"].arr, F.args[1].term)))]

    def ensures(self, F, res):
        now, was = F.args[0].attrs, F.old[0].attrs
        return [("joined", now["g_rows"].arr == z3.Store(was["g_rows"].arr, F.args[1].term, True))]


class RemoveRow(_Table):
    """a row of the table leaves it"""
    target = f"{CT}.remove_row"
    modifies = ((0, "g_rows"),)

    def requires(self, F):
        return [("of-the-table", Select(F.args[0].attrs["g_rows"].arr, F.args[1].term))]

    def ensures(self, F, res):
        now, was = F.args[0].attrs, F.old[0].attrs
        return [("left", now["g_rows"].arr == z3.Store(was["g_rows"].arr, F.args[1].term, False))]


class CoverTable(_Table):
    """usages and rewritten graph are those of the rows"""
    target = f"{CT}.cover"
    modifies = ((0, "g_covered"), (0, "_rewritten_graph"))

    def ensures(self, F, res):
        now = F.args[0].attrs
        return [("covered", now["g_covered"].arr == now["g_rows"].arr), ("rewritten", now["_rewritten_graph"].term == RW(now["g_rows"].arr))]


class TotalLength(_Table):
    """the description length of a covered table"""
    target = f"{CT}.compute_total_description_length"

    def requires(self, F):
        now = F.args[0].attrs
        return [("covered", same(now["g_covered"].arr, now["g_rows"].arr))]

    def fresh_result(self, I, F):
        return I.fresh_val("total", REAL)

    def ensures(self, F, res):
        return [("length", res.term == DL(F.args[0].attrs["g_rows"].arr))]


class TableRows(_Table):
    """the rows"""
    target = f"{CT}.rows"

    def fresh_result(self, I, F):
        return I.fresh_val("rows", ROWS)

    def ensures(self, F, res):
        x, j = bv(OBJ, "r"), ints(1)
        return [("rows", FA(j, Implies(rng(j, 0, res.n), Select(F.args[0].attrs["g_rows"].arr, Select(res.arr, j))), [Select(res.arr, j)]))]


ROWFN = {n: z3.Function("row_" + n, OBJ.sort(), OBJ.sort()) for n in ("pattern", "pattern_usage", "final_pattern")}


USAGE = z3.Function("usage_of_row", RSET.sort(), OBJ.sort(), z3.IntSort())


def _of_row(name):
    def m(I, s, a, k, line):
        if isinstance(s, Sc) and s.ty == OBJ and not a:
            if name == "pattern_usage":      # changes with every cover
                return Sc(INT, USAGE(I.F.args[0].attrs["_code_table"].attrs["g_covered"].arr, s.term))
            return Sc(OBJ, ROWFN[name](s.term))
    return m


def _new_row(I, a, k, line):
    """a row that is in no table yet"""
    r = I.fresh_val("row", OBJ)
    for v in I.F.args[0].attrs.values():
        if isinstance(v, RecV) and "g_rows" in v.attrs:
            I.assume(Not(Select(v.attrs["g_rows"].arr, r.term)))
    p = I.F.args[0].attrs.get("_pruning_rows")
    return r


def _log(I, a, k, line):
    return NONE


def _candidates(I, a, k, line):
    L.used(I, "graphmdl.utils.generate_candidates: a list, nothing else changes")
    return I.fresh_val("candidates", ROWS)


def _text(I, a, k, line):
    return I.fresh_val("text", OBJ)


class _Search(Contract):
    world_methods = {("Sc", n): _of_row(n) for n in ROWFN}
    world_extra = {"class CodeTableRow": _new_row, "skmine/graph/graphmdl/utils.py::generate_candidates": _candidates,
                   "skmine/graph/graphmdl/utils.py::display_graph": _text,
                   **{f"skmine.graph.graphmdl.utils.MyLogger.{n}": _log for n in ("info", "debug", "warning", "error")}}

    def make_self(self, I):
        ct = RecV(CT, {"g_rows": I.fresh_val("rows", RSET), "g_covered": I.fresh_val("covered", RSET), "_rewritten_graph": I.fresh_val("rewritten", OBJ)})
        return RecV(ME, {"_code_table": ct, "_rewritten_graph": I.fresh_val("rewritten_", OBJ), "_description_length": I.fresh_val("dl", REAL),
                         "_pruning_rows": I.fresh_val("pruning_rows", ROWS), "_old_usage": I.fresh_val("old_usage", MapT(OBJ, INT)),
                         "_already_test": I.fresh_val("already_test", ROWS), "_timeout": I.fresh_val("timeout", INT),
                         "_patterns": I.fresh_val("patterns", RSET), "_initial_description_length": I.fresh_val("initial", REAL)})

    def make_args(self, I):
        return [self.make_self(I)]

    def state(self, me, covered=True):
        """what is kept is what the table says"""
        ct = me["_code_table"].attrs
        out = [("length", me["_description_length"].term == DL(ct["g_rows"].arr)), ("rewritten", me["_rewritten_graph"].term == RW(ct["g_rows"].arr))]
        return out + ([("covered", same(ct["g_covered"].arr, ct["g_rows"].arr))] if covered else [])

    def pruning(self, me):
        """rows that wait for pruning are different rows of the table"""
        p, ct = me["_pruning_rows"], me["_code_table"].attrs
        i, j = ints(2)
        return [("waiting", FA(j, Implies(rng(j, 0, p.n), Select(ct["g_rows"].arr, Select(p.arr, j))), [Select(p.arr, j)])),
                ("different", FA([i, j], Implies(And(rng(i, 0, p.n), rng(j, 0, p.n), Select(p.arr, i) == Select(p.arr, j)), i == j),
                                 [z3.MultiPattern(Select(p.arr, i), Select(p.arr, j))]))]


class OldUsage(_Search):
    """changes the remembered usages only"""
    target = f"{ME}._compute_old_usage"
    modifies = ((0, "_old_usage"),)

    def ensures(self, F, res):
        return [] if getattr(F, "caller", False) else untouched(F, "_old_usage")

    def loop_spec(self, Lc, ordn, depth):
        return LoopSpec(lambda Lc, i: [])


def untouched(F, *but):
    out = []
    for k, v in F.args[0].attrs.items():
        w = F.old[0].attrs[k]
        if k in but:
            continue
        if isinstance(v, RecV):
            out += [(f"unchanged.{k}.{a}", z3.And(*eqs(x, w.attrs[a]))) for a, x in v.attrs.items()]
        else:
            out.append((f"unchanged.{k}", z3.And(*eqs(v, w))))
    return out


def eqs(a, b):
    if type(a) is not type(b):
        return [F_]
    if isinstance(a, Sc):
        return [a.term == b.term]
    if isinstance(a, SetV):
        return [a.arr == b.arr]
    if isinstance(a, SeqV):
        return [a.n == b.n, a.arr == b.arr]
    if isinstance(a, MapV):
        return [a.dom == b.dom, a.arr == b.arr]
    return [z3.BoolVal(a is b)]


class PruningCandidates(_Search):
    """only rows of the table join those that wait for pruning, once each"""
    target = f"{ME}._compute_pruning_candidates"
    modifies = ((0, "_pruning_rows"),)

    def requires(self, F):
        return self.pruning(F.args[0].attrs)

    def ensures(self, F, res):
        return self.pruning(F.args[0].attrs) + ([] if getattr(F, "caller", False) else untouched(F, "_pruning_rows"))

    def loop_spec(self, Lc, ordn, depth):
        return LoopSpec(lambda Lc, i: self.pruning(Lc.I.F.args[0].attrs))


class Pruning(_Search):
    """the table never gets longer, and what is kept is what the final table says"""
    target = f"{ME}._pruning"
    modifies = ((0, "_pruning_rows"), (0, "_old_usage"), (0, "_description_length"), (0, "_rewritten_graph"), (0, "_code_table"))

    def requires(self, F):
        me = F.args[0].attrs
        return self.state(me) + self.pruning(me)

    def ensures(self, F, res):
        me, was = F.args[0].attrs, F.old[0].attrs
        return self.state(me) + [("no-longer", me["_description_length"].term <= was["_description_length"].term), ("none-waits", me["_pruning_rows"].n == 0)]

    def loop_spec(self, Lc, ordn, depth):
        if depth:
            return None
        F = Lc.I.F

        def inv(Lc, i):
            me, was = F.args[0].attrs, F.old[0].attrs
            return self.state(me) + self.pruning(me) + [("no-longer", me["_description_length"].term <= was["_description_length"].term)]
        return LoopSpec(inv)


class End(_Search):
    """the table is covered and its description length kept"""
    target = f"{ME}._graph_mdl_end"
    modifies = ((0, "_description_length"), (0, "_rewritten_graph"), (0, "_code_table"), (0, "_patterns"))

    def fresh_result(self, I, F):
        return Sc(BOOL, T)

    def ensures(self, F, res):
        me, was = F.args[0].attrs, F.old[0].attrs
        return self.state(me) + [("same-rows", me["_code_table"].attrs["g_rows"].arr == was["_code_table"].attrs["g_rows"].arr), ("stop", F.I.truth(res))]


class Patterns(_Search):
    """lists the patterns"""
    target = f"{ME}.patterns"
    trusted = True
    modifies = ((0, "_patterns"),)

    def fresh_result(self, I, F):
        return F.args[0].attrs["_patterns"]


class Search(_Search):
    """at the end the description length kept is that of the final table, at most the one at the start"""
    target = f"{ME}._anytime_graph_mdl_with_timeout"
    modifies = ((0, "_pruning_rows"), (0, "_old_usage"), (0, "_description_length"), (0, "_rewritten_graph"), (0, "_code_table"), (0, "_patterns"), (0, "_already_test"))

    def requires(self, F):
        me = F.args[0].attrs
        return self.state(me) + [("none-waits", me["_pruning_rows"].n == 0)]

    def fresh_result(self, I, F):
        return F.args[0]

    def facts(self, F, covered=True):
        me, was = F.args[0].attrs, F.old[0].attrs
        return self.state(me, covered) + [("no-longer", me["_description_length"].term <= was["_description_length"].term), ("none-waits", me["_pruning_rows"].n == 0)]

    def ensures(self, F, res):
        return self.facts(F) + [("self", z3.BoolVal(res is F.args[0]))]

    def loop_spec(self, Lc, ordn, depth):
        if depth:
            return None
        F = Lc.I.F
        return LoopSpec(lambda Lc, i: self.facts(F, Lc.itv is None))


class SearchNoTimeout(Search):
    variant = "no timeout"

    def make_self(self, I):
        me = super().make_self(I)
        me.attrs["_timeout"] = NONE
        return me


def _new_table(I, a, k, line):
    """a table without rows"""
    v = I.fresh_val("rows", RSET)
    I.assume(v.arr == z3.K(OBJ.sort(), F_))
    return RecV(CT, {"g_rows": v, "g_covered": I.fresh_val("covered", RSET), "_rewritten_graph": I.fresh_val("rewritten", OBJ)})


class Init(_Search):
    """the table without rows, covered; its length is the initial one"""
    target = f"{ME}._init_graph_mdl"
    world_extra = {**_Search.world_extra, "class CodeTable": _new_table, "class LabelCodes": _text}
    modifies = ((0, "_description_length"), (0, "_rewritten_graph"), (0, "_code_table"), (0, "_already_test"), (0, "_initial_description_length"), (0, "_label_codes"))

    def make_self(self, I):
        me = super().make_self(I)
        me.attrs["_data"], me.attrs["_label_codes"] = I.fresh_val("data", OBJ), I.fresh_val("codes", OBJ)
        return me

    def ensures(self, F, res):
        me = F.args[0].attrs
        x = bv(OBJ, "r")
        return self.state(me) + [("initial", me["_initial_description_length"].term == me["_description_length"].term),
                                 ("no-rows", FA(x, Not(Select(me["_code_table"].attrs["g_rows"].arr, x)))), ("none-tested", me["_already_test"].n == 0)] \
            + ([] if getattr(F, "caller", False) else [("none-waits", And(me["_pruning_rows"].n == F.old[0].attrs["_pruning_rows"].n))])


class FitGraph(Init):
    """the length reported is that of the final table, at most the initial one"""
    target = f"{ME}.fit"

    def make_args(self, I):
        D = I.fresh_val("D", OBJ)
        I.assume(D.term != z3.Const("None", OBJ.sort()))
        return [self.make_self(I), D, I.fresh_val("timeout", INT)]

    def requires(self, F):
        return [("none-waits", F.args[0].attrs["_pruning_rows"].n == 0)]

    def ensures(self, F, res):
        me = F.args[0].attrs
        return self.state(me) + [("never-longer", me["_description_length"].term <= me["_initial_description_length"].term), ("self", z3.BoolVal(res is F.args[0])),
                                 ("graph", me["_data"].term == F.old[1].term)]


class FitNoTimeout(FitGraph):
    variant = "no timeout"

    def make_args(self, I):
        a = super().make_args(I)
        a[0].attrs["_timeout"] = NONE
        return a[:2] + [NONE]
