"""which contracts decide which property"""
import importlib

TRUSTED = ["pyvc: the verification-condition generator in /verif/pyvc (translation of Python to logic)",
           "z3 (and cvc5 where it is named as back end)"]
ASSUMPTIONS = [
    "Python integers are mathematical integers; floats are reals unless a contract says otherwise",
    "hash and equality of items are consistent; set and dict behave as finite sets and maps",
]
RULE = ("small scopes enumerated completely where the falsifier defines them, then seeded random cases within the bounds of "
        "falsify/{}.py; non-trivial as defined by its nontrivial(); distinct by JSON text of the case")

PROPS = {}


def prop(pid, level, explanation, contracts=(), **k):
    PROPS[pid] = dict(level=level, explanation=explanation, contracts=contracts, bounded_rule=RULE.format(pid.lower()), **k)


def registered(pid):
    out = []
    for mod, name, deps in PROPS[pid]["contracts"]:
        m = importlib.import_module("contracts." + mod)
        ds = [getattr(importlib.import_module("contracts." + dm), dn) for dm, dn in deps]
        out.append((getattr(m, name), ds))
    return out


def explain(pid):
    """what is proved for every input, and what is only executed within bounds"""
    from pyvc.contract import Contract
    parts = []
    for c, _ in registered(pid):
        doc = " ".join((next((k.__doc__ for k in c.__mro__ if k not in (Contract, object) and k.__doc__), "")).split()).rstrip(".")
        parts.append(c.target.split("::")[1] + (f" [{c.variant}]" if c.variant else "") + (f": {doc}" if doc else ""))
    rest = "the rest of the property is bounded: the real code is executed against an independent oracle within stated bounds"
    if not parts:
        return "no function of this property is within the verifier's reach yet; " + rest
    return "Under contract, for every input: " + "; ".join(parts) + ". Beyond these functions " + rest + "."


from contracts.registry import *   # noqa
for _p in PROPS:
    PROPS[_p]["explanation"] = PROPS[_p]["explanation"] or explain(_p)
