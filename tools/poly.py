"""Polynomials over terms: exact real arithmetic. A polynomial is {monomial: coefficient}, a monomial a sorted tuple of
term numbers."""
from fractions import Fraction
from terms import *

_t = {}
LIMIT = 4000


def _fz(d):
    return {k: v for k, v in d.items() if v}


def add(p, q):
    if p is None or q is None:
        return None
    r = dict(p)
    for k, v in q.items():
        r[k] = r.get(k, 0) + v
    return _fz(r)


def neg(p):
    return None if p is None else {k: -v for k, v in p.items()}


def sub(p, q):
    return None if p is None or q is None else add(p, neg(q))


def mul(p, q):
    if p is None or q is None or len(p) * len(q) > LIMIT:
        return None
    r = {}
    for a, x in p.items():
        for b, y in q.items():
            k = tuple(sorted(a + b))
            r[k] = r.get(k, 0) + x * y
    return _fz(r)


_m = {}


def of(t):
    """polynomial of a term; what is not +, -, * or a constant counts as an unknown"""
    if t in _m:
        return _m[t]
    n = num(t)
    if n is not None:
        r = _fz({(): Fraction(n)}) if n == n and abs(n) != float("inf") else None
    elif t.op == "op" and t.a[0] in ("f+", "f-", "f*") and len(t.a) == 3:
        a, b = of(t.a[1]), of(t.a[2])
        r = {"f+": add, "f-": sub, "f*": mul}[t.a[0]](a, b)
    elif t.op == "op" and t.a[0] == "fneg":
        r = neg(of(t.a[1]))
    else:
        _t[t.id] = t
        r = {(t.id,): Fraction(1)}
    _m[t] = r
    return r


def atoms(p):
    return {_t[i].op for k in p for i in k}


def terms(p):
    return {_t[i] for k in p for i in k}
