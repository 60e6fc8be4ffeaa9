"""Normal forms of value-flow terms, and the action of a permutation of the colour components on them.

canon(t, perm) renames the colour components of all inputs by `perm` and brings the result into a form in which terms
that are equal as real-number expressions of coordinate-permutation-equivariant geometry are the same term:
  - sums and products are polynomials over non-arithmetic atoms,
  - a hull or triangulation is the unordered collection of its coordinate columns, and a coordinate of a vertex is
    identified by its column's content instead of its position,
  - search results and barycentric coordinates are keyed by the collection of (column, queried coordinate) pairs,
  - the inverse of a matrix is keyed by the collection of the matrix's rows,
  - a linear program is the collection of its variables' coefficient columns.
Both sides of a comparison go through the same function, so equal results mean equal real-valued functions."""
from terms import *
from eng import index, seq, iadd, ilt, eq, cast, gen, one, is_arr, length, EMPTY, fop
import eng

MAXT = 400      # expansion limit of a polynomial


class Canon:
    def __init__(self, perm=(0, 1, 2), erase=False, colors=("palette", "newpalette")):
        self.p = perm
        self.colors = colors
        self.erase = erase
        self.memo = {}
        self.pm = {}
        self.opaque = set()       # operations on colours that are not understood

    def c(self, i):
        """colour component i under the permutation"""
        n = i if isinstance(i, int) else num(i)
        if n is None or n > 2:
            return i if isinstance(i, int) else self(i)
        r = "*" if self.erase else self.p[int(n)]
        return r if isinstance(i, int) else const(r, "int")

    # ------------------------------------------------ polynomials: {monomial (sorted tuple of (id, exponent)): coefficient}
    def poly(self, t):
        r = self.pm.get(t)
        if r is not None:
            return r
        v = num(t)
        if v is not None:
            r = {(): float(v)} if v else {}
        elif t.op == "op" and t.a[0] in ("f+", "f-"):
            a, b = self.poly(t.a[1]), self.poly(t.a[2])
            r = dict(a)
            s = 1.0 if t.a[0] == "f+" else -1.0
            for m, k in b.items():
                r[m] = r.get(m, 0.0) + s * k
            r = {m: k for m, k in r.items() if k}
        elif t.op == "op" and t.a[0] == "fneg":
            r = {m: -k for m, k in self.poly(t.a[1]).items()}
        elif t.op == "op" and t.a[0] == "f*":
            a, b = self.poly(t.a[1]), self.poly(t.a[2])
            r = self.pmul(a, b)
        elif t.op == "op" and t.a[0] == "f/":
            a, b = self.poly(t.a[1]), self.poly(t.a[2])
            if len(b) == 1:
                (m, k), = b.items()
                r = self.pmul(a, {tuple((x, -e) for x, e in m): 1.0 / k})
            else:
                # normalise the sign and scale of the denominator
                lead = b[min(b, key=mkey_)]
                b = {m: k / lead for m, k in b.items()}
                at = mk("recip", self.pterm(b))
                r = self.pmul(a, {((at, 1),): 1.0 / lead})
        else:
            x = self.at(t)
            v = num(x)
            r = ({(): float(v)} if v else {}) if v is not None else self.unpoly(x)
        self.pm[t] = r
        return r

    def unpoly(self, x):
        if x.op == "poly":
            return {tuple((m.a[i], m.a[i + 1]) for i in range(1, len(m.a), 2)): m.a[0] for m in x.a}
        return {((x, 1),): 1.0}

    def pmul(self, a, b):
        if len(a) * len(b) > MAXT and len(a) > 1 and len(b) > 1:
            # too large to expand: keep the larger factor as an atom
            if len(a) > len(b):
                a, b = b, a
            b = {((mk("big", self.pterm(b)), 1),): 1.0}
        r = {}
        for m, k in a.items():
            for n, l in b.items():
                d = dict(m)
                for x, e in n:
                    d[x] = d.get(x, 0) + e
                key = tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda z: z[0].id))
                r[key] = r.get(key, 0.0) + k * l
        return {m: k for m, k in r.items() if k}

    def pterm(self, p):
        if not p:
            return const(0.0, "f64")
        if len(p) == 1:
            (m, k), = p.items()
            if not m:
                return const(k, "f64")
            if len(m) == 1 and m[0][1] == 1 and k == 1.0:
                return m[0][0]
        ms = [mk("mono", float("%.12g" % k), *[y for xe in m for y in xe]) for m, k in p.items()]
        ms.sort(key=lambda t: t.id)
        return mk("poly", *ms)

    # ------------------------------------------------ terms
    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            if t.op == "op" and t.a[0] in ("f+", "f-", "f*", "f/", "fneg"):
                r = self.pterm(self.poly(t))
            else:
                r = self.at(t)
            self.memo[t] = r
        return r

    def all(self, xs):
        return [self(x) if type(x) is T else x for x in xs]

    def hull(self, h):
        """(key, [column content]) or None for an opaque one"""
        if h.op in ("hull", "tri"):
            n = int(num(h.a[0]))
            cols = [column(h.a[1], i) for i in range(n)]
            if any(c is None for c in cols):
                self.opaque.add(h.op)
                return mk(h.op, h.a[0], self(h.a[1])), None
            cc = [self(c) for c in cols]
            return mk(h.op + "x", *sorted(cc, key=lambda t: t.id)), cc
        return self(h), None

    def pairs(self, cols, p):
        if cols is None or not is_arr(p) or len(p.a) - 2 != len(cols):
            return self(p)
        ps = [mk("pair", c, self(x)) for c, x in zip(cols, p.a[2:])]
        return mk("pairs", *sorted(ps, key=lambda t: t.id))

    def at(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        r = self.memo[t] = self._at(t)
        return r

    def _at(self, t):
        o, a = t.op, t.a
        if o in ("c", "v", "bv", "bot"):
            return t
        if o == "ite":
            return ite(self.cond(a[0]), self(a[1]), self(a[2]))
        if o == "px":
            return mk("px", self(a[0]), self(a[1]), self(a[2]), self.c(a[3]))
        if o == "pc":
            h, i, c = a
            if h.op == "ite":
                return mapl(h, lambda x: self(mk("pc", x, i, c)))
            key, cols = self.hull(h)
            if cols is None:
                return mk("pc", key, self(i), self.c(c))
            if num(c) is None:
                return mk("pcv", key, self(i), self(c))
            return mk("pcx", key, self(i), cols[int(num(c))])
        if o in ("hull", "tri"):
            return self.hull(t)[0]
        if o in ("bc", "fs", "found", "junk"):
            key, cols = self.hull(a[0])
            return mk(o + "x", key, self.pairs(cols, a[1]), *self.all(a[2:]))
        if o == "idx":
            v, i = a
            if v.op == "inv":
                return self.inv(v, i)
            if v.op == "sorted":
                return self(index(unsort(v), i))
            l = lane(t)
            if l is not None:
                vec, c = l
                content = self.content(vec, c)
                if content is not None:
                    return content
                if root(vec) is not None and root(vec).op == "v" and root(vec).a[0] in self.colors:
                    return mk("idx", self(v), self.c(i))
            return mk("idx", self(v), self(i))
        if o == "sorted":
            return self(unsort(t))
        if o == "agg" and a[0] in ("HashMap", "BTree"):
            cols = [mapcolumn(t, i) for i in range(3)]
            if all(x is not None for x in cols):
                return mk("mapx", *sorted([self(x) for x in cols], key=lambda t: t.id))
        if o == "f" or o == "updf":
            return mk(o, *self.all(a))
        if o == "lpval":
            return self.lp(a[0], a[1])
        if o == "lpok":
            k = self.lpkey(a[0])
            return mk("lpok", k[0]) if k else mk("lpok", self(a[0]))
        if o == "op":
            if a[0] in ("f<", "f<="):
                # x < y as a sign condition of y - x, up to a positive factor
                d = self.poly(fop_raw(a[2], a[1]))
                if not d:
                    return mk("op", a[0], const(0.0, "f64"), const(0.0, "f64"))
                k = abs(d[min(d, key=mkey_)])
                d = {m: q / k for m, q in d.items()}
                return mk("op", a[0] + "0", self.pterm(d))
            if a[0] == "f==":
                d = self.poly(fop_raw(a[2], a[1]))
                if not d:
                    return mk("op", "f==0", const(0.0, "f64"))
                k = d[min(d, key=mkey_)]
                return mk("op", "f==0", self.pterm({m: q / k for m, q in d.items()}))
            if a[0] == "fabs":
                d = self.poly(a[1])
                if d:
                    k = d[min(d, key=mkey_)]
                    if k < 0:
                        d = {m: -q for m, q in d.items()}
                return mk("op", "fabs", self.pterm(d))
            if a[0] in ("fmin", "fmax"):
                xs = []
                st = list(a[1:])
                while st:
                    x = st.pop()
                    if x.op == "op" and x.a[0] == a[0]:
                        st += x.a[1:]
                    else:
                        xs.append(self(x))
                return mk("op", a[0], *sorted(set(xs), key=lambda t: t.id))
            return mk("op", *self.all(a))
        if o == "lin":
            return eng._rb_lin(*self.all(a))
        if o == "cast":
            return mk("cast", a[0], a[1], self(a[2]))
        if o == "fsum":
            return self.fsum(t)
        if o in ("ex", "exm", "one", "w", "wm"):
            na = self.all(a)
            return mk(o, *na)
        if o == "app":
            self.opaque.add(str(a[0]))
        return mk(o, *self.all(a))

    def cond(self, at):
        x = self.at(at) if at.op != "op" or at.a[0] not in ("f+", "f-", "f*") else self(at)
        if x.op == "op" and x.a[0] in ("f<0", "f<=0"):
            v = num(x.a[1])
            if v is not None:
                return TRUE if (v > 0 if x.a[0] == "f<0" else v >= 0) else FALSE
            # not (e < 0 ..): one atom for e and -e
            if x.a[1].op == "poly":
                d = self.unpoly(x.a[1])
                if d[min(d, key=mkey_)] < 0:
                    d = {m: -q for m, q in d.items()}
                    return Not(lit(mk("op", "f<=0" if x.a[0] == "f<0" else "f<0", self.pterm(d))))
        return lit(x)

    def fsum(self, t):
        a = self.all(t.a)
        return mk("fsum", *a)

    def inv(self, v, i):
        """element of the inverse of a spelled-out matrix"""
        m = v.a[0]
        if is_arr(m) and i.op == "agg" and num(i.a[2]) is not None and num(i.a[3]) is not None:
            nr = m.a[1]
            nc = (len(m.a) - 2) // nr
            rows = [mk("mrow", *[self(m.a[2 + c * nr + r]) for c in range(nc)]) for r in range(nr)]
            # row j of the inverse belongs to column j of the matrix, column c to row c
            return mk("invx", mk("rows", *sorted(rows, key=lambda t: t.id)), rows[int(num(i.a[3]))], self(i.a[2]))
        return mk("idx", self(v), self(i))

    # ------------------------------------------------ linear programs
    def lpkey(self, p):
        if p.op != "agg" or p.a[0] != "LP":
            return None
        defs, obj, cons = p.a[2:]
        eo = linexpr(obj)
        if eo is None:
            return None
        vs = set(eo) - {None}
        cs = []
        part(cons, None, cs)
        for c in cs:
            e = linexpr(c.a[1])
            if e is None:
                return None
            vs |= set(e) - {None}
        cols = {}
        for v in list(vs) + [None]:
            if v is None:
                body = part(cons, None)
            else:
                body = part(cons, v)
            if body is None:
                return None
            cols[v] = mk("lpcol", self(eo.get(v, const(0.0, "f64"))), self(body))
        key = mk("lpx", cols[None], *sorted([cols[v] for v in vs], key=lambda t: t.id), self(defs))
        return key, cols

    def lp(self, p, v):
        if p.op == "ite":
            return mapl(p, lambda q: self.lp(q, v))
        k = self.lpkey(p)
        if k is None or v not in k[1]:
            self.opaque.add("lpval")
            return mk("lpval", self(p), self(v))
        return mk("lpvalx", k[0], k[1][v])

    # ------------------------------------------------ vectors of colour components in containers
    def content(self, vec, c):
        """content of component c of a colour vector that came out of a container, or None"""
        if vec.op == "f" and vec.a[1] == 0:
            b = vec.a[0]
        else:
            b = vec
        if b.op == "mkey":
            m = b.a[0]
            cols = [mapcolumn(m, i) for i in range(3)]
            if any(x is None for x in cols):
                return None
            cc = [self(x) for x in cols]
            return mk("mkeyx", mk("mapx", *sorted(cc, key=lambda t: t.id)), self(b.a[1]), cc[c])
        return None


def mkey_(m):
    return [(x.id, e) for x, e in m]


def fop_raw(x, y):
    return mk("op", "f-", x, y)


def unsort(t):
    """the sequence that a sorted value sorts"""
    return t.a[1 + t.a[0]] if isinstance(t.a[0], int) else t.a[0]


def rewrite(t, f, memo=None):
    """t rebuilt bottom-up with f applied to every subterm"""
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x)
        if r is None:
            na = tuple([go(y) if type(y) is T else y for y in x.a])
            r = f(x if all(p is q for p, q in zip(na, x.a)) else rebuild(x.op, na))
            memo[x] = r
        return r
    return go(t)


_hb = {}
_al = {}


def hb(t):
    """nesting depth of binders in a renamed term"""
    r = _hb.get(t)
    if r is None:
        n = binder(t)
        r = n + max([hb(y) for y in t.a[(1 + n if n else 0):] if type(y) is T] + [0])
        _hb[t] = r
    return r


def alpha(t):
    """t with bound variables numbered by nesting alone, so that renamed copies are the same term"""
    if t.bh == 0:
        return t
    r = _al.get(t)
    if r is not None:
        return r
    n = binder(t)
    if n:
        d = 1 + max([v.a[1] for v in t.fv if v.op == "v" and v.a[0] == "al"] + [-1])
        vs = [mk("v", "al", d + i) for i in range(n)]
        m = dict(zip(t.a[1:1 + n], vs))
        body = [alpha(subst(b, m)) if type(b) is T else b for b in t.a[1 + n:]]
        h = max([hb(b) for b in body if type(b) is T] + [0])
        m = {v: mk("bv", h + 1 + i) for i, v in enumerate(vs)}
        r = mk(t.op, n, *([m[v] for v in vs] + [subst(b, m) if type(b) is T else b for b in body]))
    else:
        na = tuple([alpha(y) if type(y) is T else y for y in t.a])
        r = t if all(p is q for p, q in zip(na, t.a)) else rebuild(t.op, na)
    _al[t] = r
    return r


def unsorted(t):
    """t with the sequences themselves in place of their sorted forms"""
    return rewrite(t, lambda x: unsort(x) if x.op == "sorted" else x)


def lane(t):
    """(vector, component) of an element access with a constant component number into something that holds a colour"""
    v, i = t.a
    n = num(i)
    if n is None or n > 2 or n != int(n):
        return None
    b = v
    if b.op == "f" and b.a[1] == 0:
        return v, int(n)
    if b.op == "mkey":
        return v, int(n)
    return None


def root(t):
    """the variable that an element access starts from"""
    while t.op in ("f", "idx", "vr", "sl") or t.op == "*":
        t = t.a[0]
    return t


def mapcolumn(m, c):
    """the inserts of a map log with the keys replaced by their colour component c"""
    if m.op != "agg" or m.a[0] not in ("HashMap", "BTree"):
        return None
    ok = [True]

    def key(k):
        if k.op == "agg" and len(k.a) == 3 and is_arr(k.a[2]) and len(k.a[2].a) == 5:
            return k.a[2].a[2 + c]
        if is_arr(k) and len(k.a) == 5:
            return k.a[2 + c]
        ok[0] = False
        return k

    def go(t):
        if t.op == "seq":
            return mk("seq", *[go(x) for x in t.a])
        if t.op == "rep":
            n = t.a[0]
            return mk("rep", *(list(t.a[:2 + n]) + [go(x) for x in t.a[2 + n:]]))
        if t.op == "one":
            e = t.a[1]
            if e.op == "orins":
                return mk("one", t.a[0], mk("orins", key(e.a[0]), e.a[1]))
            if e.op == "modify":
                n = e.a[0]
                return mk("one", t.a[0], mk("modify", *(list(e.a[:1 + n]) + [key(e.a[1 + n])] + list(e.a[2 + n:]))))
            if e.op == "agg" and e.a[0] == "tuple":
                return mk("one", t.a[0], tup(key(e.a[2]), *e.a[3:]))
            ok[0] = False
        if t is not EMPTY:
            ok[0] = False
        return t
    r = go(m.a[2])
    return r if ok[0] else None


def column(s, c):
    """a sequence of points with every point replaced by its coordinate c"""
    ok = [True]

    def go(t):
        if t.op == "ite":
            return mapl(t, go)
        if t.op == "seq":
            return mk("seq", *[go(x) for x in t.a])
        if t.op == "rep":
            n = t.a[0]
            return mk("rep", *(list(t.a[:2 + n]) + [go(x) for x in t.a[2 + n:]]))
        if t.op == "one":
            e = t.a[1]
            while e.op == "vr":
                e = e.a[0]
            if e.op == "ite" and all(is_arr(x) for x in leaves(e)):
                return mk("one", t.a[0], mapl(e, lambda x: x.a[2 + c]))
            if is_arr(e) and len(e.a) > 2 + c:
                return mk("one", t.a[0], e.a[2 + c])
            ok[0] = False
            return t
        if t is EMPTY:
            return t
        if is_arr(t):
            return arrcol(t)
        ok[0] = False
        return t

    def arrcol(t):
        es = t.a[2:]
        if all(is_arr(e) and len(e.a) > 2 + c for e in es):
            return mk("seq", EMPTY, *[one(e.a[2 + c]) for e in es])
        ok[0] = False
        return t
    r = go(s)
    return r if ok[0] else None


def linexpr(e):
    """{variable or None: coefficient} of a linear expression, or None"""
    if e.op == "lpv":
        return {e: const(1.0, "f64")}
    if num(e) is not None or e.op != "lp":
        return None if e.op in ("app",) else {None: e}
    o, x, y = e.a[0], e.a[1], e.a[2] if len(e.a) > 2 else None
    if o in ("+", "-"):
        p, q = linexpr(x), linexpr(y)
        if p is None or q is None:
            return None
        r = dict(p)
        for v, k in q.items():
            r[v] = fop("f" + o, r.get(v, const(0.0, "f64")), k)
        return r
    if o == "*":
        p, q = linexpr(x), linexpr(y)
        if p is None or q is None:
            return None
        if set(p) == {None}:
            p, q = q, p
        if set(q) != {None}:
            return None
        return {v: fop("f*", k, q[None]) for v, k in p.items()}
    if o == "/":
        p, q = linexpr(x), linexpr(y)
        if p is None or q is None or set(q) != {None}:
            return None
        return {v: fop("f/", k, q[None]) for v, k in p.items()}
    return None


def part(cons, v, found=None):
    """the constraint sequence with each constraint replaced by its coefficient of v"""
    ok = [True]

    def go(t):
        if t.op == "seq":
            return mk("seq", *[go(x) for x in t.a])
        if t.op == "rep":
            n = t.a[0]
            return mk("rep", *(list(t.a[:2 + n]) + [go(x) for x in t.a[2 + n:]]))
        if t.op == "one" and t.a[1].op == "lpc":
            if found is not None:
                found.append(t.a[1])
            e = linexpr(t.a[1].a[1]) or {}
            return mk("one", t.a[0], mk("coef", t.a[1].a[0], e.get(v, const(0.0, "f64"))))
        if t is not EMPTY:
            ok[0] = False
        return t
    r = go(cons)
    return r if ok[0] else None
