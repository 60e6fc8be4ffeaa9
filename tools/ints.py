"""Normal forms and values of the integer index expressions that appear in terms.

Sizes are positive; conversions between integer widths are taken to keep the value (that widths suffice is C22)."""
from terms import *
from eng import iadd, isub, imul, lin_parts, mklin


def isint(w):
    return w[0] in "ui" and w[1:].isdigit() or w in ("usize", "isize")


class Ints:
    """bounds: {variable: term that it is below}"""

    def __init__(self, bounds=None):
        self.b = {}
        self.memo = {}
        for v, n in (bounds or {}).items():
            self.b[self(v)] = self(n)

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.go(t)
        return r

    def go(self, t):
        if t.op == "cast" and isint(t.a[0]) and isint(t.a[1]):
            return self(t.a[2])
        if t.op == "lin":
            acc = const(t.a[0], "int")
            for i in range(1, len(t.a), 2):
                acc = iadd(acc, self.mul(const(t.a[i], "int"), self(t.a[i + 1])))
            return self.whole(acc)
        if t.op == "op" and t.a[0] in ("*", "*u32", "*u64", "*u16", "*i32", "*i64"):
            r = self(t.a[1])
            for x in t.a[2:]:
                r = self.mul(r, self(x))
            return r
        if t.op == "op" and t.a[0].rstrip("0123456789uie") in ("%", "/"):
            return self.divmod(t.a[0][0], self(t.a[1]), self(t.a[2]))
        if t.op == "nrows" and t.a[0].op == "csr":
            return self(t.a[0].a[0])
        if t.op == "ite":
            return mapl(t, self)
        if t.op in ("c", "v", "bv", "imgw", "imgh", "len", "idx", "f", "px", "nv"):
            return t
        return t

    def mul(self, x, y):
        """product distributed over sums"""
        c1, d1 = lin_parts(x)
        c2, d2 = lin_parts(y)
        acc = const(c1 * c2, "int")
        for t, n in d1.items():
            acc = iadd(acc, imul(const(n * c2, "int"), t))
        for t, n in d2.items():
            acc = iadd(acc, imul(const(n * c1, "int"), t))
        for t, n in d1.items():
            for u, m in d2.items():
                acc = iadd(acc, imul(const(n * m, "int"), imul(t, u)))
        return acc

    def whole(self, t):
        """w * (k / w) + k % w is k"""
        c, d = lin_parts(t)
        for m, n in list(d.items()):
            if m.op == "op" and m.a[0] == "%":
                k, w = m.a[1], m.a[2]
                q = imul(mk("op", "/", k, w), w)
                if d.get(q) == n:
                    d2 = dict(d)
                    del d2[m]
                    del d2[q]
                    r = mklin(c, d2)
                    return self.whole(iadd(r, imul(const(n, "int"), k)))
        return t

    def below(self, t, w):
        """t < w for certain"""
        if t.op == "op" and t.a[0] == "%" and t.a[2] is w:
            return True
        if self.b.get(t) is w:
            return True
        v, n = num(t), num(w)
        if v is not None and n is not None:
            return v < n
        if t.op == "op" and t.a[0] == "/":
            # k / a < b when k < a * b
            n = self.b.get(t.a[1])
            if n is not None and n is imul(t.a[2], w):
                return True
        return False

    def divmod(self, o, x, w):
        c, d = lin_parts(x)
        q, r = const(0, "int"), const(c, "int")
        fw = list(w.a[1:]) if w.op == "op" and w.a[0] == "*" else [w]
        for t, n in d.items():
            fs = list(t.a[1:]) if t.op == "op" and t.a[0] == "*" else [t]
            rest = list(fs)
            ok = True
            for f in fw:
                if f in rest:
                    rest.remove(f)
                else:
                    ok = False
            if ok:
                m = const(1, "int")
                for f in rest:
                    m = imul(m, f)
                q = iadd(q, imul(const(n, "int"), m))
            else:
                r = iadd(r, imul(const(n, "int"), t))
        if self.below(r, w):
            return r if o == "%" else q
        if q.op == "c" and q.a[0] == 0:
            return mk("op", o, x, w)
        if o == "%":
            return self.divmod("%", r, w)
        return iadd(q, mk("op", "/", r, w))


def ival(t, env):
    """value under env (terms to integers), or None"""
    if t in env:
        return env[t]
    if t.op == "c":
        return int(t.a[0]) if num(t) is not None else None
    if t.op == "cast" and isint(t.a[0]) and isint(t.a[1]):
        return ival(t.a[2], env)
    if t.op == "lin":
        s = t.a[0]
        for i in range(1, len(t.a), 2):
            v = ival(t.a[i + 1], env)
            if v is None:
                return None
            s += t.a[i] * v
        return s
    if t.op == "op" and t.a[0][0] in "*%/":
        vs = [ival(x, env) for x in t.a[1:]]
        if any(v is None for v in vs):
            return None
        if t.a[0][0] == "*":
            r = 1
            for v in vs:
                r *= v
            return r
        if vs[1] == 0:
            return None
        return vs[0] % vs[1] if t.a[0][0] == "%" else vs[0] // vs[1]
    if t.op == "nrows" and t.a[0].op == "csr":
        return ival(t.a[0].a[0], env)
    return None


def differ(x, y, free):
    """a valuation of the free variables {variable: bound term or None} under which x and y differ, None if none is known,
    False when the expressions are not understood"""
    import itertools
    for w, h in ((2, 3), (3, 2), (4, 3), (3, 5)):
        env = {}
        for s in {s for z in (x, y) for s in find(z, lambda q: q.op in ("imgw", "imgh"))} | {s for b in free.values() if b is not None for s in find(b, lambda q: q.op in ("imgw", "imgh"))}:
            env[s] = w if s.op == "imgw" else h
        vs = list(free)
        rng = []
        for v in vs:
            n = ival(free[v], env) if free[v] is not None else w * h
            if n is None:
                return False
            rng.append(range(min(n, 20)))
        for c in itertools.product(*rng):
            e = dict(env)
            e.update(zip(vs, c))
            a, b = ival(x, e), ival(y, e)
            if a is None or b is None:
                return False
            if a != b:
                return dict([("width", w), ("height", h)] + list(zip(map(repr, vs), c)))
    return None
