"""Translation and scale behaviour of a value-flow term.

Forward derivative: d(t) is the rate of change of t when all points are moved together along each axis; a term is translation
invariant when its rate is identically zero, and moves with the points when the rate along its own axis is one.
Degree: t is homogeneous of degree deg(t) in the unit that points are measured in."""
from terms import *
from eng import fop, fneg, is_arr
import eng

Z = const(0.0, "f64")
ONE = const(1.0, "f64")
ANY = "any"
CAP = 20000


class Dims:
    def __init__(self, seed, n=3):
        """seed(t) -> (degree, axis or None) for inputs, or None for other terms"""
        self.seed, self.n = seed, n
        self.dm, self.gm, self.pm, self.zm = {}, {}, {}, {}
        self.mixed = []      # (term, degree, degree)
        self.unknown = set()

    # ------------------------------------------------ polynomials over invariant quotients and inputs
    def poly(self, t, deep=False):
        k = (t, deep)
        r = self.pm.get(k)
        if r is not None:
            return r
        v = num(t)
        o = t.a[0] if t.op == "op" else None
        if v is not None:
            r = {(): float(v)} if v else {}
        elif o in ("f+", "f-"):
            r = dict(self.poly(t.a[1], deep))
            s = 1.0 if o == "f+" else -1.0
            for m, c in self.poly(t.a[2], deep).items():
                r[m] = r.get(m, 0.0) + s * c
            r = {m: c for m, c in r.items() if abs(c) > 1e-12}
        elif o == "fneg":
            r = {m: -c for m, c in self.poly(t.a[1], deep).items()}
        elif o == "f*":
            r = self.mul(self.poly(t.a[1], deep), self.poly(t.a[2], deep))
        elif o == "f/" and num(t.a[2]):
            r = {m: c / num(t.a[2]) for m, c in self.poly(t.a[1], deep).items()}
        else:
            r = {((t, 1),): 1.0}
        self.pm[k] = r
        return r

    def mul(self, a, b):
        if len(a) * len(b) > CAP:
            raise OverflowError
        r = {}
        for m, k in a.items():
            for n, l in b.items():
                d = dict(m)
                for x, e in n:
                    d[x] = d.get(x, 0) + e
                key = tuple(sorted(d.items(), key=lambda z: z[0].id))
                r[key] = r.get(key, 0.0) + k * l
        return {m: k for m, k in r.items() if abs(k) > 1e-12}

    def zero(self, t):
        """is t identically zero: True, False (its expansion over independent inputs is not), None"""
        if t is Z or num(t) == 0:
            return True
        r = self.zm.get(t)
        if r is None:
            r = self.zm[t] = (self._zero(t),)
        return r[0]

    def _zero(self, t):
        if t.op == "ite":
            rs = [self.zero(x) for x in leaves(t)]
            return True if all(rs) else None if any(x is None for x in rs) else False
        try:
            p = self.poly(t)
        except OverflowError:
            return None
        if not p:
            return True
        # quotients: bring to a common denominator and expand everything
        try:
            n, _ = self.ratio(t)
        except OverflowError:
            return None
        if not n:
            return True
        inv = [m for m in n for x, e in m if x.op == "idx" and x.a[0].op == "inv"]
        if inv:
            # elements of an inverse with constant factors are independent
            return False if all(len(m) <= 1 and all(e == 1 for x, e in m) for m in n) else None
        for m in n:
            for x, e in m:
                if self.seed(x) is None and not (x.op == "v") and not (x.op == "op" and x.a[0] == "fsgn"):
                    return None
        return False

    def ratio(self, t):
        """(numerator, denominator) as polynomials"""
        o = t.a[0] if t.op == "op" else None
        v = num(t)
        if v is not None:
            return ({(): float(v)} if v else {}), {(): 1.0}
        if o in ("f+", "f-"):
            a, b = self.ratio(t.a[1])
            c, d = self.ratio(t.a[2])
            if b == d:
                x, y, den = a, c, b
            else:
                x, y, den = self.mul(a, d), self.mul(c, b), self.mul(b, d)
            r = dict(x)
            s = 1.0 if o == "f+" else -1.0
            for m, k in y.items():
                r[m] = r.get(m, 0.0) + s * k
            return {m: k for m, k in r.items() if abs(k) > 1e-12}, den
        if o == "fneg":
            a, b = self.ratio(t.a[1])
            return {m: -k for m, k in a.items()}, b
        if o == "f*":
            a, b = self.ratio(t.a[1])
            c, d = self.ratio(t.a[2])
            return self.mul(a, c), self.mul(b, d)
        if o == "f/":
            a, b = self.ratio(t.a[1])
            c, d = self.ratio(t.a[2])
            return self.mul(a, d), self.mul(b, c)
        if t.op == "idx" and t.a[0].op == "inv":
            e = self.explicit(t)
            if e is not None:
                (a, b), (c, d) = self.ratio(e[0]), self.ratio(e[1])
                return self.mul(a, d), self.mul(b, c)
        return {((t, 1),): 1.0}, {(): 1.0}

    # ------------------------------------------------ derivative along the axes
    def d(self, t):
        r = self.dm.get(t)
        if r is None:
            r = self.dm[t] = self._d(t)
        return r

    def zeros(self):
        return (Z,) * self.n

    def isinv(self, t):
        """is t unchanged by translations: True, False, None"""
        rs = [x if x is None else self.zero(x) for x in self.d(t)]
        return True if all(rs) else False if any(x is False for x in rs) else None

    def _d(self, t):
        s = self.seed(t)
        if s is not None:
            return tuple(ONE if s[1] == c else Z for c in range(self.n))
        if t.op in ("c", "v", "bv", "bot"):
            return self.zeros()
        if t.op == "ite":
            a, b = self.d(t.a[1]), self.d(t.a[2])
            c = lit(t.a[0])
            return tuple(None if x is None or y is None else x if x is y else ite(c, x, y) for x, y in zip(a, b))
        if t.op == "op":
            o, xs = t.a[0], t.a[1:]
            if o in ("f+", "f-", "f*", "f/"):
                (a, b), x, y = (self.d(xs[0]), self.d(xs[1])), xs[0], xs[1]
                r = []
                for p, q in zip(a, b):
                    if p is None or q is None:
                        r.append(None)
                    elif o in ("f+", "f-"):
                        r.append(self.simp(fop(o, p, q)))
                    elif o == "f*":
                        r.append(self.simp(fop("f+", self.times(p, y), self.times(x, q))))
                    else:
                        n = self.simp(fop("f-", self.times(p, y), self.times(x, q)))
                        r.append(Z if num(n) == 0 else fop("f/", n, fop("f*", y, y)))
                return tuple(r)
            if o == "fneg":
                return tuple(None if p is None else fneg(p) for p in self.d(xs[0]))
            if o == "fpowi" and num(xs[1]) is not None:
                n = int(num(xs[1]))
                return tuple(None if p is None else self.times(self.times(const(float(n), "f64"), p), fun_powi(xs[0], n - 1)) for p in self.d(xs[0]))
            if o == "fsqrt":
                return tuple(None if p is None else Z if self.zero(p) else fop("f/", p, fop("f*", const(2.0, "f64"), t)) for p in self.d(xs[0]))
            if o in ("fabs", "fclamp", "fmin", "fmax", "fround"):
                ds = [self.d(x) for x in xs]
                r = []
                for c in range(self.n):
                    ps = [q[c] for q in ds]
                    if any(p is None for p in ps):
                        r.append(None)
                    elif all(self.zero(p) for p in ps):
                        r.append(Z)
                    elif o == "fabs":
                        r.append(fop("f*", mk("op", "fsgn", xs[0]), ps[0]))
                    elif all(p is ps[0] for p in ps):
                        r.append(ps[0])
                    else:
                        r.append(None)
                return tuple(r)
        if t.op == "idx" and t.a[0].op == "inv":
            r = self.dinv(t)
            if r is not None:
                return r
        if t.op in ("idx", "f", "cast", "lin") or t.op == "op":
            ps = [self.d(x) for x in t.a if type(x) is T]
            if all(p is not None and self.zero(p) for q in ps for p in q):
                return self.zeros()
        elif is_arr(t):
            ps = [self.d(x) for x in t.a[2:]]
            if all(p is not None and self.zero(p) for q in ps for p in q):
                return self.zeros()
        elif not any(self.seed(x) for x in find(t, lambda x: self.seed(x) is not None)):
            return self.zeros()
        self.unknown.add(t.op + ":" + str(t.a[0])[:20] if t.op == "op" else t.op)
        return (None,) * self.n

    def times(self, x, y):
        if num(x) == 0 or num(y) == 0:
            return Z
        return fop("f*", x, y)

    def simp(self, t):
        return Z if self.zero(t) else self.lead(t)

    def lead(self, t):
        """a constant when the expansion is one"""
        if t.op == "ite":
            return t
        try:
            p = self.poly(t)
        except OverflowError:
            return t
        if len(p) == 1 and () in p:
            return const(p[()], "f64")
        return t

    def matrix(self, m):
        """rows of a spelled-out square matrix"""
        if not is_arr(m):
            return None
        nr = m.a[1]
        if not isinstance(nr, int) or nr <= 0 or (len(m.a) - 2) % nr:
            return None
        nc = (len(m.a) - 2) // nr
        return [[m.a[2 + c * nr + r] for c in range(nc)] for r in range(nr)]

    def dinv(self, t):
        """an element of an inverse: when moving the points adds multiples of a row to rows, dM = E M, so d inv(M) = -inv(M) E"""
        M = self.matrix(t.a[0].a[0])
        at = self.at(t.a[1], len(M) if M else 0)
        if M is None or at is None:
            return None
        j, col = at
        out = []
        for c in range(self.n):
            tot = Z
            for r, row in enumerate(M):
                ds = [self.d(x)[c] for x in row]
                if any(x is None for x in ds):
                    return None
                if all(self.zero(x) for x in ds):
                    continue
                hit = [q for q, w in enumerate(M) if all(self.zero(fop("f-", x, y)) for x, y in zip(ds, w))]
                if not hit:
                    return self.dinv_general(t, M, j, col) if len(M) <= 3 else None
                if hit[0] == col:
                    tot = fop("f-", tot, self.el(t, j, r, len(M)))
            out.append(tot)
        return tuple(out)

    def dinv_general(self, t, M, j, col):
        n = len(M)
        out = []
        for c in range(self.n):
            tot = Z
            for r in range(n):
                for k in range(n):
                    x = self.d(M[r][k])[c]
                    if not self.zero(x):
                        tot = fop("f-", tot, fop("f*", fop("f*", self.el(t, j, r, n), x), self.el(t, k, col, n)))
            out.append(tot)
        return tuple(out)

    def explicit(self, t):
        """an element of the inverse of a matrix of up to three rows as (cofactor, determinant) terms"""
        M = self.matrix(t.a[0].a[0])
        n = len(M) if M else 0
        at = self.at(t.a[1], n)
        if at is None or n not in (2, 3):
            return None

        def det(m):
            if len(m) == 1:
                return m[0][0]
            r = Z
            for k in range(len(m)):
                x = fop("f*", m[0][k], det([[row[q] for q in range(len(m)) if q != k] for row in m[1:]]))
                r = fop("f+", r, x) if k % 2 == 0 else fop("f-", r, x)
            return r
        j, c = at
        minor = [[M[r][k] for k in range(n) if k != j] for r in range(n) if r != c]
        x = det(minor)
        return (x if (j + c) % 2 == 0 else fneg(x)), det(M)

    def at(self, i, n):
        """(row, column) of an element index: a pair or a position in column order"""
        if i.op == "agg" and len(i.a) == 4 and num(i.a[2]) is not None and num(i.a[3]) is not None:
            return int(num(i.a[2])), int(num(i.a[3]))
        if num(i) is not None and n:
            return int(num(i)) % n, int(num(i)) // n
        return None

    def el(self, t, j, r, n):
        i = t.a[1]
        if i.op == "agg":
            return mk("idx", t.a[0], mk("agg", i.a[0], i.a[1], const(j, i.a[2].a[1]), const(r, i.a[3].a[1])))
        return mk("idx", t.a[0], const(j + r * n, i.a[1]))

    # ------------------------------------------------ degree
    def deg(self, t):
        if t not in self.gm:
            self.gm[t] = None
            self.gm[t] = self._deg(t)
        return self.gm[t]

    def same(self, t, xs):
        ds = [self.deg(x) for x in xs]
        if any(d is None for d in ds):
            return None
        ks = {d for d in ds if d != ANY}
        if len(ks) > 1:
            self.mixed.append((t, ds))
            return None
        return ks.pop() if ks else ANY

    def _deg(self, t):
        s = self.seed(t)
        if s is not None:
            return s[0]
        v = num(t)
        if v is not None:
            return ANY if v == 0 else 0
        if t.op == "ite":
            return self.same(t, [x for x in leaves(t)])
        if t.op == "op":
            o, xs = t.a[0], t.a[1:]
            if o in ("f+", "f-", "fmin", "fmax", "fclamp"):
                return self.same(t, xs)
            if o in ("f*", "f/"):
                a, b = self.deg(xs[0]), self.deg(xs[1])
                if a is None or b is None:
                    return None
                if a == ANY or b == ANY:
                    return ANY
                return a + b if o == "f*" else a - b
            if o in ("fneg", "fabs"):
                return self.deg(xs[0])
            if o == "fsqrt":
                a = self.deg(xs[0])
                return a / 2 if a not in (None, ANY) else a
            if o == "fpowi" and num(xs[1]) is not None:
                a = self.deg(xs[0])
                return a * int(num(xs[1])) if a not in (None, ANY) else a
        if t.op == "idx" and t.a[0].op == "inv":
            M = self.matrix(t.a[0].a[0])
            at = self.at(t.a[1], len(M) if M else 0)
            if M is not None and at is not None:
                r = self.same(t, M[at[1]])
                return -r if r not in (None, ANY) else r
        if t.op in ("v", "bv"):
            return 0
        self.unknown.add("deg " + (t.op + ":" + str(t.a[0])[:20] if t.op == "op" else t.op))
        return None


def fun_powi(x, n):
    if n == 0:
        return ONE
    if n == 1:
        return x
    return mk("op", "fpowi", x, const(n, "i32"))


def comparisons(t):
    """the float comparisons that choose between the values of t"""
    r = []
    for x in find(t, lambda x: x.op == "op" and x.a[0] in ("f<", "f<=", "f==")):
        r.append(x)
    return r
