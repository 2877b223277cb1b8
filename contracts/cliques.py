"""maximal cliques (skmine/utils.py)"""
from pyvc.contract import *
from pyvc.spec import *
from pyvc import lib as L, theory
from pyvc.vals import GenV

NODES = SetT(OBJ)
GRAPH = MapT(OBJ, NODES)
o = OBJ.sort()
s_ = NODES.sort()
sub, card = theory.subset_fn(OBJ), theory.card_fn(OBJ)
ADJ = z3.Function("adjacent", o, o, z3.BoolSort())
CAND = z3.Function("extends_by", s_, o, z3.BoolSort())       # CAND(R, v): v outside R, adjacent to all of R
MC = z3.Function("maximal_clique", s_, z3.BoolSort())
OUT = z3.Function("clique_within", s_, s_, s_, z3.BoolSort())     # OUT(R, P, C): maximal clique C, R <= C <= R + P
W1 = z3.Function("not_adjacent", s_, o, o)
W2 = z3.Function("outside", s_, s_, s_, o)


def theory_of_cliques():
    R_, P, C = bv(NODES, "R"), bv(NODES, "P"), bv(NODES, "C")
    u, v = bv(OBJ, "u"), bv(OBJ, "v")
    w, x = W1(R_, v), W2(R_, P, C)
    adj = [FA([u, v], ADJ(u, v) == ADJ(v, u), [ADJ(u, v)]), FA(u, Not(ADJ(u, u)), [ADJ(u, u)])]
    cand = [FA([R_, v, u], Implies(And(CAND(R_, v), Select(R_, u)), ADJ(v, u)), [z3.MultiPattern(CAND(R_, v), Select(R_, u))]),
            FA([R_, v], Implies(CAND(R_, v), Not(Select(R_, v))), [CAND(R_, v)]),
            FA([R_, v], Or(CAND(R_, v), Select(R_, v), And(Select(R_, w), Not(ADJ(v, w)))), [CAND(R_, v)])]
    # a clique nothing extends
    mc = [FA([C, u, v], Implies(And(MC(C), Select(C, u), Select(C, v), u != v), ADJ(u, v)),
             [z3.MultiPattern(MC(C), Select(C, u), Select(C, v))]),
          FA([C, v], Implies(MC(C), Not(CAND(C, v))), [z3.MultiPattern(MC(C), CAND(C, v))])]
    out = [FA([R_, P, C], Implies(OUT(R_, P, C), And(MC(C), sub(R_, C))), [OUT(R_, P, C)]),
           FA([R_, P, C, v], Implies(And(OUT(R_, P, C), Select(C, v)), Or(Select(R_, v), Select(P, v))),
              [z3.MultiPattern(OUT(R_, P, C), Select(C, v))]),
           FA([R_, P, C], Or(OUT(R_, P, C), Not(MC(C)), Not(sub(R_, C)), And(Select(C, x), Not(Select(R_, x)), Not(Select(P, x)))),
              [OUT(R_, P, C)])]
    return adj, cand, mc, out


def sub_self(A):
    return sub(A, A)


class _Cliques(Contract):
    """yields each maximal clique of more than two nodes exactly once"""
    target = "skmine/utils.py::bron_kerbosch"
    is_generator = True
    modifies = (0, 2)
    shallow = True
    top = False

    def sets(self, F, args):
        P = args[0].dom
        none = z3.K(o, F_)
        R_ = none if isinstance(args[1], NoneV) else as_type(args[1], GRAPH).dom
        X = none if isinstance(args[2], NoneV) else as_type(args[2], GRAPH).dom
        return P, R_, X

    def requires(self, F):
        P, R_, X = self.sets(F, F.args)
        F.g.setdefault("sets", (P, R_, X))
        G = as_type(F.args[0], GRAPH)
        u, v = bv(OBJ, "u"), bv(OBJ, "v")
        out = [("neighbours", FA([v, u], Implies(Select(P, v), Select(Select(G.arr, v), u) == ADJ(v, u)), [Select(Select(G.arr, v), u)])),
               ("candidates-and-excluded", FA(v, Or(Select(P, v), Select(X, v)) == CAND(R_, v), [CAND(R_, v), Select(P, v), Select(X, v)])),
               ("disjoint", FA(v, Not(And(Select(P, v), Select(X, v))), [Select(P, v)])),
               ("clique", FA([u, v], Implies(And(Select(R_, u), Select(R_, v), u != v), ADJ(u, v)), [z3.MultiPattern(Select(R_, u), Select(R_, v))]))]
        for d in F.args[3:]:
            out.append(("depth", d.term <= 20))
        return out

    def rest(self, I):
        """the depth, where the function has one"""
        return [I.fresh_val("depth", INT)] * (len(I.fnode.args.args) - 3)

    def setup(self, I, F):
        adj, cand, mc, out = theory_of_cliques()
        P, R_, X = F.g["sets"]
        C, v, n = bv(NODES, "C"), bv(OBJ, "v"), bv(OBJ, "n")
        req = list(I.pc)
        w = I.fresh("ext", o)
        # no node extends the clique: then it is maximal (definition of MC, the clique being one)
        here = Or(MC(R_), CAND(R_, w))
        Rn = z3.Store(R_, n, T)

        def lemma(name, f, *using):
            keep, I.pc = I.pc, [g for u in using for g in (u if isinstance(u, list) else [u])]
            I.prove("lemma." + name, f, kind="lemma")
            I.pc = keep
            return f
        l0 = lemma("outside", FA([C, v], Implies(And(OUT(R_, P, C), Select(C, v), Not(Select(R_, v))), And(CAND(R_, v), Select(P, v))),
                                 [z3.MultiPattern(OUT(R_, P, C), Select(C, v))]), adj, cand, mc, out)
        l1 = lemma("only-itself", FA(C, Implies(And(OUT(R_, P, C), Not(CAND(R_, w))), C == R_), [OUT(R_, P, C)]),
                   l0, here, mc, out, sub_self(R_))
        l2 = lemma("itself", Implies(MC(R_), OUT(R_, P, R_)), out, sub_self(R_))
        l3 = lemma("extended", FA([n, v], Implies(CAND(R_, n), CAND(Rn, v) == And(CAND(R_, v), v != n, ADJ(n, v))), [CAND(Rn, v)]), adj, cand)
        u = bv(OBJ, "u")
        l4 = lemma("joins", FA([n, u], Implies(And(CAND(R_, n), Select(R_, u)), And(ADJ(n, u), ADJ(u, n), n != u)),
                               [z3.MultiPattern(CAND(R_, n), Select(R_, u))]), adj, cand)
        I.pc += adj + [l4, here, l0, l1, l2, l3] + mc + out
        F.g["req"] = req
        F.g["extended"] = adj + [l3]

    def new_Y(self, I, F, f):
        I.cnt += 1
        Y = z3.Function(f"Y!{I.cnt}", s_, z3.IntSort())
        C = bv(NODES, "C")
        if f is not None:
            I.pc.append(FA(C, Y(C) == f(C), [Y(C)]))
        F.g["Y"] = Y

    def init_yield(self, I, F):
        self.new_Y(I, F, lambda C: z3.IntVal(0))

    def on_yield(self, I, F, v, line):
        E = L.as_set(I, v)
        P, R_, X = F.g["sets"]
        k = bv(OBJ, "k")
        I.prove("yield.the-clique", FA(k, Select(E.arr, k) == Select(R_, k)), line)
        if isinstance(v, SeqV):
            a, b = ints(2)
            I.prove("yield.no-repetition", FA([a, b], Implies(And(0 <= a, a < b, b < v.n), Select(v.arr, a) != Select(v.arr, b))), line)
        Y = F.g["Y"]
        self.new_Y(I, F, lambda C: Y(C) + If(C == R_, 1, 0))

    def adapt_args(self, I, vals):
        """the recursive call gets the clique with the node, and its neighbours among what is left and what is excluded"""
        F = I.F
        if "step" in F.g and not I.typing and all(as_type(v, GRAPH).ty == GRAPH for v in vals[:3]):
            n, i, first, Q, XN = F.g["step"]
            x = bv(OBJ, "x")
            for nm, v, w in zip(("candidates", "clique", "excluded"), vals, (Q, z3.Store(F.g["sets"][1], n, T), XN)):
                d = as_type(v, GRAPH).dom
                I.prove("call." + nm, FA(x, Select(d, x) == Select(w, x)), getattr(I, "cur_line", 0))
                I.pc.append(d == w)
        return vals

    def on_yield_from(self, I, F, v, line):
        P, R_, X = v.sets
        P0, R0, X0 = F.g["sets"]
        Y = F.g["Y"]
        here = lambda C: OUT(R_, P, C)
        if "step" in F.g and not I.typing:
            n, i, first = F.g["step"][:3]
            here = lambda C: And(OUT(R0, P0, C), first(C) == i)
        self.new_Y(I, F, lambda C: Y(C) + If(And(here(C), card(C) > 2), 1, 0))

    def fresh_result(self, I, F):
        g = GenV(z3.IntVal(0), None, z3.IntVal(0))
        g.sets = self.sets(F, F.old)
        return g

    def havoc_ghost(self, I, Lc):
        self.new_Y(I, I.F, None)

    def ensures(self, F, res):
        if getattr(F, "caller", False):
            return []
        P, R_, X = F.g["sets"]
        C = bv(NODES, "C")
        return [("exactly-once", FA(C, F.g["Y"](C) == If(And(OUT(R_, P, C), card(C) > 2), 1, 0)))]

    def loop_spec(self, Lc, ordn, depth):
        if depth or not isinstance(Lc.itv, SeqV):
            return None
        I, F = Lc.I, Lc.I.F
        P0, R_, X0 = F.g["sets"]
        ety = Lc.itv.ety
        e = (lambda j: ety.sort().accessor(0, 0)(Select(Lc.itv.arr, j))) if ety.kind == "tup" else (lambda j: Select(Lc.itv.arr, j))
        Y0 = F.g["Y"]
        i1, i2, j = ints(3)
        x, C = bv(OBJ, "x"), bv(NODES, "C")
        n_ = Lc.itv.n
        pos, first = I.fresh_fn("position", o, z3.IntSort()), I.fresh_fn("first", s_, z3.IntSort())
        if not I.typing:
            I.prove("loop.each-candidate", FA(x, Implies(Select(P0, x), EX(j, And(rng(j, 0, n_), e(j) == x)))))
            I.prove("loop.candidates-only", FA(j, Implies(rng(j, 0, n_), Select(P0, e(j)))))
            I.prove("loop.once-each", FA([i1, i2], Implies(And(0 <= i1, i1 < i2, i2 < n_), e(i1) != e(i2))))
            # hence the position of a candidate, and the position of the first candidate in a set (n_ if there is none)
            I.pc += [FA(x, Implies(Select(P0, x), And(rng(pos(x), 0, n_), e(pos(x)) == x)), [pos(x)]),
                     FA(j, Implies(rng(j, 0, n_), pos(e(j)) == j), [Select(Lc.itv.arr, j)]),
                     FA(C, And(0 <= first(C), first(C) <= n_, Implies(first(C) < n_, Select(C, e(first(C))))), [first(C)]),
                     FA([C, x], Implies(And(Select(P0, x), Select(C, x)), pos(x) >= first(C)), [z3.MultiPattern(first(C), Select(C, x))])]

        def inv(Lc, i):
            P = Lc.I.env["candidates"]
            X = as_type(Lc.I.env["excluded"], GRAPH)
            C, v = bv(NODES, "C"), bv(OBJ, "v")
            seen = lambda v: And(Select(P0, v), pos(v) < i)
            return [("left", FA(v, Select(P.dom, v) == And(Select(P0, v), pos(v) >= i), [Select(P.dom, v)])),
                    ("values", FA(v, Implies(Select(P.dom, v), Select(P.arr, v) == Select(F.old[0].arr, v)), [Select(P.arr, v)])),
                    ("excluded", FA(v, Select(X.dom, v) == Or(Select(X0, v), seen(v)), [Select(X.dom, v)])),
                    ("once", FA(C, F.g["Y"](C) == Y0(C) + If(And(OUT(R_, P0, C), card(C) > 2, first(C) < i), 1, 0), [F.g["Y"](C)]))]

        def body(Lc, i):
            n = e(i)
            Q, XN = I.fresh("next", s_), I.fresh("next_excluded", s_)
            v, C = bv(OBJ, "v"), bv(NODES, "C")
            F.g["step"] = (n, i, first, Q, XN)
            dQ = [FA(v, Select(Q, v) == And(Select(P0, v), pos(v) >= i, ADJ(n, v)), [Select(Q, v)]),
                  FA(v, Select(XN, v) == And(Or(Select(X0, v), And(Select(P0, v), pos(v) < i)), ADJ(n, v)), [Select(XN, v)])]
            req = F.g["req"]
            I.prove("lemma.node", And(Select(P0, n), pos(n) == i), kind="lemma")
            rest, Rn = F.g["extended"], z3.Store(R_, n, T)
            I.pc += dQ
            I.seed(CAND(R_, n))
            lem = FA(v, Or(Select(Q, v), Select(XN, v)) == CAND(Rn, v), [CAND(Rn, v), Select(Q, v), Select(XN, v)])
            keep, I.pc = I.pc, req + dQ + rest + [Select(P0, n), pos(n) == i]
            I.prove("lemma.child-candidates", lem, kind="lemma")
            I.pc = keep + [lem]
            I.prove("lemma.child", FA(C, OUT(Rn, Q, C) == And(OUT(R_, P0, C), first(C) == i)), kind="lemma")
        return LoopSpec(inv, at_body=body)


class CliquesRec(_Cliques):
    """within a recursion: each maximal clique of more than two nodes between clique and clique + candidates, exactly once"""
    variant = "recursive call"

    def make_args(self, I):
        return [I.fresh_val("candidates", GRAPH), I.fresh_val("clique", GRAPH), I.fresh_val("excluded", GRAPH)] + self.rest(I)


class CliquesTop(_Cliques):
    variant = "whole graph"

    def make_args(self, I):
        return [I.fresh_val("candidates", GRAPH), NONE, NONE] + self.rest(I)
