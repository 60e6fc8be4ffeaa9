"""Hash-consed terms: the value-flow graph the MIR analysis builds.

Every value is a term. Choices between values are decision diagrams over atomic conditions (op `ite`, ordered by the
atom's number), so that equal functions of the conditions are one term however the branches were written. A boolean is
such a diagram with the leaves TRUE and FALSE."""
import sys

_tab = {}
_n = [0]


class T:
    __slots__ = ("op", "a", "id", "fv", "bh", "sz")

    def __repr__(self):
        return show(self)


def _key(x):
    if type(x) is T:
        return x.id
    return (type(x).__name__, x)


def mk(op, *a):
    k = (op,) + tuple([_key(x) for x in a])
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a = op, a
        _n[0] += 1
        t.id = _n[0]
        fv = None
        bh = 0
        for x in a:
            if type(x) is T:
                if x.fv:
                    fv = x.fv if fv is None or fv is x.fv else (fv | x.fv)
                if x.bh > bh:
                    bh = x.bh
        t.fv = fv or frozenset()
        t.bh = bh
        if op == "v":
            t.fv = frozenset([t])
        elif op == "bv":
            t.bh = a[0]
        _tab[k] = t
    return t


def const(v, k=""):
    return mk("c", v, k)


TRUE = const(True, "bool")
FALSE = const(False, "bool")
BOT = mk("bot")            # undefined: never read
UNIT = mk("agg", "tuple", 0)


def isc(x, v=None):
    return x.op == "c" and (v is None or x.a[0] == v)


def num(x):
    """python number of a constant, or None"""
    if x.op == "c" and x.a[1] != "bool" and isinstance(x.a[0], (int, float)):
        return x.a[0]
    return None


# ---------------------------------------------------------------- decision diagrams
_ite = {}


def top(x):
    return x.a[0] if x.op == "ite" else None


def _cof(x, at, b):
    if x.op == "ite" and x.a[0] is at:
        return x.a[1] if b else x.a[2]
    return x


def node(at, g, h):
    if g is h:
        return g
    if g is BOT:
        return h
    if h is BOT:
        return g
    if g.op == "agg" and h.op == "agg" and g.a[0] == h.a[0] and g.a[1] == h.a[1] and len(g.a) == len(h.a) and len(g.a) > 2:
        return mk("agg", g.a[0], g.a[1], *[node2(at, x, y) for x, y in zip(g.a[2:], h.a[2:])])
    if g.op == "vr" and h.op == "vr":
        return mk("vr", node2(at, g.a[0], h.a[0]))
    r = _joinseq(at, g, h)
    if r is not None:
        return r
    return mk("ite", at, g, h)


def node2(at, g, h):
    return ite(mk("ite", at, TRUE, FALSE), g, h)


def _joinseq(at, g, h):
    """appends to the same sequence: a conditional append of the same number of single elements"""
    if g.op == "app1" and h.op == "app1" and g.a[0] is h.a[0]:
        return mk("app1", g.a[0], node2(at, g.a[1], h.a[1]))
    return None


def ite(f, g, h):
    if f is TRUE:
        return g
    if f is FALSE:
        return h
    if g is h:
        return g
    if g is BOT:
        return h
    if h is BOT:
        return g
    if g is TRUE and h is FALSE:
        return f
    k = (f.id, g.id, h.id)
    r = _ite.get(k)
    if r is not None:
        return r
    assert f.op == "ite", f
    at = f.a[0]
    if g.op == "ite" and g.a[0].id < at.id:
        at = g.a[0]
    if h.op == "ite" and h.a[0].id < at.id:
        at = h.a[0]
    r = node(at, ite(_cof(f, at, 1), _cof(g, at, 1), _cof(h, at, 1)),
             ite(_cof(f, at, 0), _cof(g, at, 0), _cof(h, at, 0)))
    _ite[k] = r
    return r


def And(*xs):
    r = TRUE
    for x in xs:
        r = ite(r, x, FALSE)
    return r


def Or(*xs):
    r = FALSE
    for x in xs:
        r = ite(r, TRUE, x)
    return r


def Not(x):
    return ite(x, FALSE, TRUE)


hook = [None]        # decides comparisons that an analysis knows more about


def lit(at):
    if at.op == "c":
        return TRUE if at.a[0] else FALSE
    if hook[0] is not None:
        r = hook[0](at)
        if r is not None:
            return TRUE if r else FALSE
    if at.op == "ite":
        return as_bool(at)
    return mk("ite", at, TRUE, FALSE)


_ab = {}


def as_bool(x):
    if x is TRUE or x is FALSE:
        return x
    r = _ab.get(x)
    if r is None:
        if x.op == "c":
            r = TRUE if x.a[0] else FALSE
        elif x is BOT:
            r = BOT
        elif x.op == "ite":
            r = ite(mk("ite", x.a[0], TRUE, FALSE), as_bool(x.a[1]), as_bool(x.a[2]))
        else:
            r = mk("ite", x, TRUE, FALSE)
        _ab[x] = r
    return r


_rs = {}


def restrict(f, c):
    """f simplified, given that c holds"""
    if c is TRUE or f.op != "ite" or c is FALSE:
        return f
    k = (f.id, c.id)
    r = _rs.get(k)
    if r is not None:
        return r
    fa, ca = f.a[0], c.a[0]
    if ca.id < fa.id:
        c1, c0 = c.a[1], c.a[2]
        if c1 is FALSE:
            r = restrict(f, c0)
        elif c0 is FALSE:
            r = restrict(f, c1)
        else:
            r = restrict(f, Or(c1, c0))
    elif ca is fa:
        c1, c0 = c.a[1], c.a[2]
        if c1 is FALSE:
            r = restrict(f.a[2], c0)
        elif c0 is FALSE:
            r = restrict(f.a[1], c1)
        else:
            r = ite(mk("ite", fa, TRUE, FALSE), restrict(f.a[1], c1), restrict(f.a[2], c0))
    else:
        r = ite(mk("ite", fa, TRUE, FALSE), restrict(f.a[1], c), restrict(f.a[2], c))
    _rs[k] = r
    return r


def mapl(x, fn):
    """applies fn to every leaf of a choice"""
    if x.op != "ite":
        return x if x is BOT else fn(x)
    memo = {}

    def go(y):
        if y.op != "ite":
            return y if y is BOT else fn(y)
        r = memo.get(y)
        if r is None:
            r = memo[y] = ite(mk("ite", y.a[0], TRUE, FALSE), go(y.a[1]), go(y.a[2]))
        return r
    return go(x)


def map2(x, y, fn):
    if x.op == "ite":
        return mapl(x, lambda u: map2(u, y, fn))
    if y.op == "ite":
        return mapl(y, lambda u: BOT if x is BOT else fn(x, u))
    return BOT if x is BOT or y is BOT else fn(x, y)


def leaves(x):
    """the different values a choice can take"""
    seen, res, st = set(), [], [x]
    while st:
        y = st.pop()
        if y in seen:
            continue
        seen.add(y)
        if y.op == "ite":
            st += [y.a[2], y.a[1]]
        elif y is not BOT:
            res.append(y)
    return res


def gleaves(x, cond=TRUE):
    """[(condition, value)]"""
    res = {}

    def go(y, c):
        if y.op == "ite":
            l = mk("ite", y.a[0], TRUE, FALSE)
            go(y.a[1], And(c, l))
            go(y.a[2], And(c, Not(l)))
        elif y is not BOT:
            res[y] = Or(res.get(y, FALSE), c)
    go(x, cond)
    return [(c, v) for v, c in res.items()]


def atoms(x):
    seen, res, st = set(), [], [x]
    while st:
        y = st.pop()
        if y in seen or y.op != "ite":
            continue
        seen.add(y)
        if y.a[0] not in res:
            res.append(y.a[0])
        st += [y.a[1], y.a[2]]
    return res


# ---------------------------------------------------------------- aggregates
def agg(tag, variant, *fs):
    return mk("agg", tag, variant, *fs)


def tup(*fs):
    return mk("agg", "tuple", 0, *fs)


def arr(*fs):
    return mk("agg", "arr", 0, *fs)


def some(x):
    return mk("agg", "Option", 1, x)


NONE = mk("agg", "Option", 0)


def ok(x):
    return mk("agg", "Result", 0, x)


def err(x):
    return mk("agg", "Result", 1, x)


def fld(x, i, v=None):
    """field i (of variant v)"""
    if x.op == "agg":
        if v is not None and x.a[1] != v:
            return BOT
        return x.a[2 + i] if 2 + i < len(x.a) else BOT
    if x.op == "ite":
        return mapl(x, lambda y: fld(y, i, v))
    if x is BOT:
        return BOT
    if x.op == "updf":
        if x.a[1] == i and x.a[2] == (v or 0):
            return x.a[3]
        return fld(x.a[0], i, v)
    return mk("f", x, i, v or 0)


def upd(x, i, v, val):
    if x.op == "agg" and 2 + i < len(x.a) and (v is None or x.a[1] == v):
        fs = list(x.a)
        fs[2 + i] = val
        return mk("agg", *fs)
    if x.op == "ite":
        return mapl(x, lambda y: upd(y, i, v, val))
    return mk("updf", x, i, v or 0, val)


def variant(x, n=2):
    """the variant number (a choice of constants when it is known)"""
    if x.op == "agg":
        return const(x.a[1], "isize")
    if x.op == "ite":
        return mapl(x, variant)
    if x is BOT:
        return BOT
    if x.op == "updf":
        return variant(x.a[0])
    return mk("variant", x)


def is_arr(x):
    return x.op == "agg" and x.a[0] == "arr"


# ---------------------------------------------------------------- binders
def var(*key):
    return mk("v", *key)


def bind(op, vs, *body):
    """op(number of variables, canonical variables.., body..) with vs bound"""
    h = max([b.bh for b in body] + [0])
    m = {}
    cvs = []
    for k, v in enumerate(vs):
        cv = mk("bv", h + 1 + k)
        m[v] = cv
        cvs.append(cv)
    return mk(op, len(vs), *(cvs + [subst(b, m) for b in body]))


# rebuilders for the smart constructors, filled in by the interpreter
REBUILD = {}


def binder(x):
    """number of variables that x binds"""
    a = x.a
    n = a[0] if a else None
    if type(n) is int and n > 0 and len(a) > n + 1 and type(a[1]) is T and a[1].op == "bv" and \
            all(type(v) is T and v.op == "bv" for v in a[2:1 + n]):
        return n
    return 0


def subst(t, m, memo=None):
    """replaces variables (free or bound, the latter only where they are not bound again inside t); m: T -> T"""
    if not m:
        return t
    fvs = frozenset(m)
    bvs = [k for k in m if k.op == "bv"]
    low = min([k.a[0] for k in bvs], default=0)
    if memo is None:
        memo = {}

    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        if not (x.fv & fvs) and not (bvs and x.bh >= low):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if bvs:
            n = binder(x)
            if n and any(v in m for v in x.a[1:1 + n]):
                mm = {k: v for k, v in m.items() if k not in x.a[1:1 + n]}
                na = x.a[:1 + n] + tuple([subst(y, mm) if type(y) is T else y for y in x.a[1 + n:]])
                r = x if all(p is q for p, q in zip(na, x.a)) else rebuild(x.op, na)
                memo[x] = r
                return r
        na = tuple([go(y) if type(y) is T else y for y in x.a])
        if all(p is q for p, q in zip(na, x.a)):
            r = x
        else:
            r = rebuild(x.op, na)
        memo[x] = r
        return r
    return go(t)


def rebuild(op, a):
    f = REBUILD.get(op)
    if f:
        return f(*a)
    return mk(op, *a)


REBUILD["ite"] = lambda c, g, h: ite(lit(c) if c.op != "c" else (TRUE if c.a[0] else FALSE), g, h)
REBUILD["f"] = lambda x, i, v: fld(x, i, v)
REBUILD["updf"] = upd
REBUILD["variant"] = variant


def walk(t, f, seen=None):
    """calls f on every subterm once; f returning True stops the descent there"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if f(x):
            continue
        for y in x.a:
            if type(y) is T:
                st.append(y)


def find(t, pred):
    res = []

    def f(x):
        if pred(x):
            res.append(x)
    walk(t, f)
    return res


def contains(t, u):
    return bool(find(t, lambda x: x is u))


def size(t, cap=100000):
    n = [0]

    def f(x):
        n[0] += 1
        return n[0] > cap
    walk(t, f)
    return n[0]


# ---------------------------------------------------------------- printing
def show(t, depth=8):
    if type(t) is not T:
        return str(t)
    if depth <= 0:
        return "#%d" % t.id
    s = lambda x: show(x, depth - 1)
    o, a = t.op, t.a
    if o == "c":
        return str(a[0]) if a[1] != "str" else repr(a[0])
    if o == "ite":
        if a[1] is TRUE and a[2] is FALSE:
            return "%s" % s(a[0])
        if a[1] is FALSE and a[2] is TRUE:
            return "!%s" % s(a[0])
        return "(%s ? %s : %s)" % (s(a[0]), s(a[1]), s(a[2]))
    if o == "agg":
        tag = str(a[0])
        fs = ", ".join(s(x) for x in a[2:])
        if tag == "tuple":
            return "(%s)" % fs
        if tag == "arr":
            return "[%s]" % fs
        return "%s#%d{%s}" % (tag.split("::")[-1][:30], a[1], fs)
    if o == "v":
        return "$" + ".".join(str(x)[-24:] for x in a)
    if o == "bv":
        return "%%%d" % a[0]
    if o == "f":
        return "%s.%s%s" % (s(a[0]), a[1], "" if not a[2] else "v%d" % a[2])
    if o == "idx":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if o == "op":
        if len(a) == 3:
            return "(%s %s %s)" % (s(a[1]), a[0], s(a[2]))
        return "%s(%s)" % (a[0], ", ".join(s(x) for x in a[1:]))
    if o == "app":
        return "%s(%s)" % (str(a[0]).split("::")[-1], ", ".join(s(x) for x in a[1:]))
    return "%s(%s)" % (o, ", ".join(s(x) for x in a))
