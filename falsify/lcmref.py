import itertools


def supports(D):
    """closed itemset -> tids, for every closed itemset with at least one transaction"""
    T = [frozenset(t) for t in D]
    clo = set()
    for t in T:
        new = {t}
        for c in clo:
            new.add(c & t)
        clo |= new
    return {c: frozenset(i for i, t in enumerate(T) if c <= t) for c in clo if c}


def closed(D, s):
    return {c: t for c, t in supports(D).items() if len(t) >= s}


def maximal(D, s):
    fr = closed(D, s)
    return {c: t for c, t in fr.items() if not any(c < d for d in fr)}
