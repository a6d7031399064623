"""Reference model: a family is a frozenset of frozensets; every operation by definition."""
from itertools import combinations


def powerset(elems):
    elems = list(elems)
    out = [frozenset()]
    for e in elems:
        out += [s | {e} for s in out]
    return out


def F(sets):
    return frozenset(frozenset(s) for s in sets)


def union(f, g): return f | g
def intersection(f, g): return f & g
def difference(f, g): return f - g
def symdiff(f, g): return f ^ g
def join(f, g): return F(a | b for a in f for b in g)
def meet(f, g): return F(a & b for a in f for b in g)


def quotient(f, g):
    """{a : for all b in g, a and b disjoint and a|b in f}; g non-empty."""
    assert g
    b0 = min(g, key=len)
    cand = [s - b0 for s in f if b0 <= s]
    return F(a for a in cand if all(not (a & b) and (a | b) in f for b in g))


def remainder(f, g):
    return f - join(g, quotient(f, g))


def subsets(f, g): return F(a for a in f if any(a <= b for b in g))
def supersets(f, g): return F(a for a in f if any(a >= b for b in g))
def non_subsets(f, g): return f - subsets(f, g)
def non_supersets(f, g): return f - supersets(f, g)
def minimal(f): return F(a for a in f if not any(b < a for b in f))
def maximal(f): return F(a for a in f if not any(b > a for b in f))
def hitting(f, univ): return F(s for s in powerset(univ) if all(s & a for a in f))
def invert(f, univ): return frozenset(powerset(univ)) - f
def flip_all(f, univ):
    u = frozenset(univ)
    return F(a ^ u for a in f)
def flip(f, e): return F(a ^ {e} for a in f)
def smaller(f, k): return F(a for a in f if len(a) < k)
def larger(f, k): return F(a for a in f if len(a) > k)
def sized(f, k): return F(a for a in f if len(a) == k)
def including(f, e): return F(a for a in f if e in a)
def excluding(f, e): return F(a for a in f if e not in a)
def add_elem(f, e): return F(a | {e} for a in f)
def remove_elem(f, e): return F(a - {e} for a in f)
def rm_some(f): return F(a - {e} for a in f for e in a)
def add_some(f, univ): return F(a | {e} for a in f for e in univ if e not in a)
def swap_some(f, univ): return F((a - {e}) | {x} for a in f for e in a for x in univ if x not in a)


def constrained(inc, exc, univ):
    inc, exc = frozenset(inc), frozenset(exc)
    return F(s for s in powerset(univ) if inc <= s and not (exc & s))


def weight(a, w, default):
    return sum(w.get(e, default) for e in a)


def probability(f, p, univ):
    t = 0.0
    for a in f:
        q = 1.0
        for e in univ:
            q *= p[e] if e in a else 1 - p[e]
        t += q
    return t
