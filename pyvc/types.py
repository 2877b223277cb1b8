"""Mathematical types used by the verifier, and their SMT sorts."""
import z3

_SORTS = {}
OBJ_SORT = z3.DeclareSort("Obj")


class Ty:
    def __init__(self, kind, *args):
        self.kind, self.args = kind, args
        self.key = (kind,) + tuple(a.key for a in args)

    def __eq__(self, o):
        return isinstance(o, Ty) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return self.kind if not self.args else f"{self.kind}[{', '.join(map(repr, self.args))}]"

    @property
    def name(self):
        return self.kind if not self.args else self.kind + "_" + "_".join(a.name for a in self.args) + "_"

    def sort(self):
        if self.key in _SORTS:
            return _SORTS[self.key]
        k = self.kind
        if k == "int":
            s = z3.IntSort()
        elif k == "real":
            s = z3.RealSort()
        elif k == "bool":
            s = z3.BoolSort()
        elif k == "obj":
            s = OBJ_SORT
        elif k == "set":
            s = z3.ArraySort(self.args[0].sort(), z3.BoolSort())
        elif k == "seq":
            d = z3.Datatype("Seq_" + self.args[0].name)
            d.declare("mk_" + self.name, ("len_" + self.name, z3.IntSort()),
                      ("arr_" + self.name, z3.ArraySort(z3.IntSort(), self.args[0].sort())))
            s = d.create()
        elif k == "map":
            d = z3.Datatype("Map_" + self.args[0].name + "_" + self.args[1].name)
            d.declare("mk_" + self.name, ("dom_" + self.name, z3.ArraySort(self.args[0].sort(), z3.BoolSort())),
                      ("val_" + self.name, z3.ArraySort(self.args[0].sort(), self.args[1].sort())))
            s = d.create()
        elif k == "tup":
            d = z3.Datatype("Tup_" + "_".join(a.name for a in self.args))
            d.declare("mk_" + self.name, *[(f"f{i}_" + self.name, a.sort()) for i, a in enumerate(self.args)])
            s = d.create()
        else:
            raise TypeError(k)
        _SORTS[self.key] = s
        return s


INT, REAL, BOOL, OBJ = Ty("int"), Ty("real"), Ty("bool"), Ty("obj")


def SetT(e):
    return Ty("set", e)


def SeqT(e):
    return Ty("seq", e)


def MapT(k, v):
    return Ty("map", k, v)


def TupT(*ts):
    return Ty("tup", *ts)


SCALARS = ("int", "real", "bool", "obj")
