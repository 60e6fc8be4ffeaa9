"""Which scale (power of the 0-255 byte scale) a value of the recolouring pipeline is on."""
from terms import *
from dims import Dims, ANY
from canon import column, part, linexpr, unsort
from eng import is_arr, EMPTY
import eng
from eng import index


class Scale(Dims):
    """degree 1: a colour component on the 0-255 scale, degree 0: on the 0-1 scale, a weight or another plain number"""

    def __init__(self, inputs):
        Dims.__init__(self, lambda t: None)
        self.inputs = inputs       # variables that hold byte colours
        self.bad = {}              # key -> detail
        self.und = {}
        self.good = set()
        self.env = {}
        self.done = set()
        self.depth, self.mute, self.prev, self.cyclic, self.open = 0, False, {}, set(), set()
        self.hulls = []            # hulls built from points anywhere in the program

    def deg(self, t):
        """terms that depend on themselves, through a loop, are computed twice: first with nothing known about the term, then with that result"""
        if t in self.gm:
            if t in self.open:
                self.cyclic.add(t)
            return self.gm[t]
        if self.depth:
            return self.inner(t)
        self.depth = 1
        try:
            keep, self.cyclic = dict(self.gm), set()
            self.mute = True
            r = self.inner(t)
            self.mute = False
            self.prev = {k: self.gm.get(k, ANY) for k in self.cyclic}
            self.gm = keep
            r = self.inner(t)
            return r
        finally:
            self.depth, self.mute = 0, False

    def inner(self, t):
        self.gm[t] = self.prev.get(t, ANY)
        self.open.add(t)
        r = self._deg(t)
        self.open.discard(t)
        self.gm[t] = r
        return r

    def note(self, kind, ds, t, what):
        """the degrees of the two sides of an operation"""
        if self.mute:
            return
        k = {d for d in ds if d not in (ANY, None)}
        if len(k) > 1:
            self.bad.setdefault(kind, "%s on the scales 255^%s: %s" % (what, ds, show(t, 3)[:200]))
        elif None in ds:
            self.und.setdefault(kind, "%s: %s" % (what, show(t, 3)[:200]))
        else:
            self.good.add((kind, t))

    def _deg(self, t):
        o, a = t.op, t.a
        if o == "c" and isinstance(a[0], float):
            v = abs(a[0])
            if v == 0:
                return ANY
            for n in (-2, -1, 1, 2):
                if abs(v / 255.0 ** n - 1) < 1e-6:
                    return n
            return 0
        if o == "c":
            return 0 if num(t) else ANY
        if o == "px":
            return 1
        if o == "cast":
            if a[0] == "u8" and a[1] in ("f64", "f32"):
                d = self.deg(a[2])
                return 1 if d is None or d == ANY else d
            if a[1] == "u8":
                self.deg(a[2])
                return 1
            if a[1] in ("f64", "f32") and a[0] not in ("f64", "f32"):
                # an integer that is not a byte: a count, an index or a widened byte
                d = self.deg(a[2])
                return d if d is not None else 0
            return self.deg(a[2])
        if o == "idx":
            return self.element(t)
        if o == "f":
            s = self.sources(t)
            if s and s != [t]:
                return self.join([self.deg(x) for x in s])
        if o == "pc":
            return self.coord(a[0], a[2])
        if o in ("bc", "junk", "found"):
            self.query(t)
            return 0
        if o in ("nv", "nf", "ns", "len", "mlen", "imgw", "imgh", "lin", "fv", "sv", "fnb", "fs", "ncols", "nrows", "isum", "ifind", "minm", "maxm", "firstm",
                 "mval", "exm", "ex", "hf"):
            return 0
        if o == "nrm":
            return 0
        if o == "lpval":
            return self.lpval(t)
        if o == "fsum":
            return self.deg(a[-1])
        if o == "op":
            p, xs = a[0], a[1:]
            if p in ("f<", "f<=", "f=="):
                self.note("comparison", [self.deg(x) for x in xs], t, "comparison")
                return 0
            if p in ("f+", "f-"):
                ds = [self.deg(x) for x in xs]
                if None not in ds and len({d for d in ds if d != ANY}) > 1 and any(num(x) == 0.5 for x in xs):
                    return [d for x, d in zip(xs, ds) if num(x) != 0.5][0]       # rounding
                self.note("sum", ds, t, "sum")
                return self.join(ds)
            if p in ("fmin", "fmax", "fclamp"):
                ds = [self.deg(x) for x in xs]
                self.note("limit", ds, t, "limit")
                return self.join(ds)
            if p in ("fround", "ffloor", "fceil", "ftrunc"):
                return self.deg(xs[0])
            if p[0] in "+-*/%<=&|^" or p in ("imin", "imax", "satsub"):
                ds = [self.deg(x) for x in xs]
                return self.join(ds) if any(d not in (0, ANY, None) for d in ds) else 0
        if o == "ite":
            self.deg(a[0])
            for x in atoms(t):
                self.deg(x)
            ds = [self.deg(x) for x in leaves(t) if x is not BOT]
            self.note("choice", ds, t, "alternatives")
            return self.join(ds)
        if o == "v":
            return 1 if t in self.inputs else 0
        if o == "bv":
            return 0
        return Dims._deg(self, t)

    def join(self, ds):
        k = {d for d in ds if d not in (ANY, None)}
        if None in ds and not k:
            return None
        return k.pop() if len(k) == 1 else (ANY if not k else None)

    # ------------------------------------------------ hulls and queries
    def coord(self, h, c):
        n = num(c)
        if n is None:
            return None
        return self.coldeg(h, int(n))

    def coldeg(self, h, c):
        k = ("col", h, c)
        if k not in self.gm:
            self.gm[k] = self.prev.get(k, ANY)          # a loop's own state: by induction
            self.open.add(k)
            r = self._coldeg(h, c)
            self.open.discard(k)
            self.gm[k] = r
        elif k in self.open:
            self.cyclic.add(k)
        return self.gm[k]

    def _coldeg(self, h, c):
        if h.op == "ite":
            for x in atoms(h):
                self.deg(x)
            ds = [self.coldeg(x, c) for x in leaves(h)]
            self.note("hull", ds, h, "alternative hulls")
            return self.join(ds)
        if h in self.env:
            return self.coldeg(self.env[h], c)
        if h.op in ("hf", "bv"):
            # the hull that a handle or a loop's state belongs to: one of the program's hulls
            ds = [self.coldeg(x, c) for x in self.hulls]
            return self.join(ds)
        if h.op == "fold":
            n, st = self.fold(h)
            return self.coldeg(h.a[2 + n], c) if False else self.foldcol(h, c)
        if h.op in ("hull", "tri"):
            col = column(h.a[1], c)
            if col is None:
                return None
            es = []
            elems(col, es)
            ds = [self.deg(x) for x in es]
            self.note("points", ds, h, "points of a hull")
            return self.join(ds)
        return None

    def fold(self, t):
        """(number of binders, loop state variable) with the loop's body analysed on its own"""
        return t.a[0], None

    def foldcol(self, t, c):
        """fold(2, k, m, gen, init, step): a hull that is replaced in every round"""
        if t.a[0] != 2 or len(t.a) < 6:
            return None
        k, m, g, init, step = t.a[1], t.a[2], t.a[3], t.a[4], t.a[5]
        v = var("st", t.id)
        self.env[v] = init
        d0 = self.coldeg(init, c)
        s = subst(step, {m: v})
        d1 = self.coldeg(s, c)
        self.note("hull", [d0, d1], t, "hulls of successive rounds")
        if ("g", t) not in self.done:
            self.done.add(("g", t))
            self.conds(subst(g, {m: v}))
        return d0

    def conds(self, t):
        """comparisons anywhere in a term"""
        for x in find(t, lambda x: x.op == "op" and x.a[0] in ("f<", "f<=", "f==")):
            self.deg(x)
        for x in find(t, lambda x: x.op in ("bc", "found", "fs", "junk")):
            self.query(x)

    def query(self, t):
        """a point looked up in a triangulation: each coordinate on the scale of the triangulation's"""
        tri, p = t.a[0], t.a[1]
        if ("q", tri, p) in self.done:
            return
        self.done.add(("q", tri, p))
        if not is_arr(p):
            self.und.setdefault("query", show(p, 3)[:200])
            return
        for c, x in enumerate(p.a[2:]):
            if c > 2:
                break
            ds = [self.coldeg(tri, c), self.deg(x)]
            self.note("query", ds, t, "triangulation and point")

    # ------------------------------------------------ elements of containers
    def element(self, t):
        v, i = t.a
        if v.op == "inv":
            M = self.matrix(v.a[0])
            at = self.at(i, len(M) if M else 0)
            if M is None or at is None:
                return None
            r = self.join([self.deg(x) for x in M[at[1]]])
            self.note("matrix row", [self.deg(x) for x in M[at[1]]], t, "row of a matrix")
            return -r if r not in (None, ANY) else r
        b = v
        while b.op in ("f", "idx", "vr"):
            b = b.a[0]
        if b in self.inputs:
            return 1
        s = self.sources(v)
        if s is not None and s != [v]:
            return self.join([self.deg(index(x, i)) for x in s])
        if b.op == "mkey" or b.op == "elem":
            return self.mapkey(b)
        if v.op == "csr":
            ds = []
            es = []
            elems(v.a[4], es)
            ds = [self.deg(x) for x in es]
            return self.join(ds)
        if v.op in ("seq", "sorted"):
            es = []
            elems(unsort(v) if v.op == "sorted" else v, es)
            ds = [self.deg(x) for x in es]
            return self.join(ds) if ds else None
        if is_arr(v):
            return self.join([self.deg(x) for x in v.a[2:]])
        if v.op in ("wrs", "fill", "updi"):
            ds = [self.deg(x) for x in written(v)]
            return self.join(ds) if ds else None
        self.unknown.add("element of " + v.op)
        return None

    def sources(self, t):
        """the terms that a part of a container's element can be"""
        if t.op == "idx" and t.a[0].op in ("seq", "sorted"):
            es = []
            elems(unsort(t.a[0]) if t.a[0].op == "sorted" else t.a[0], es)
            return es
        if t.op == "f":
            s = self.sources(t.a[0])
            return s and [fld(x, *t.a[1:]) for x in s]
        if t.op == "vr":
            s = self.sources(t.a[0])
            return s
        return [t]

    def mapkey(self, b):
        return 1

    def lpval(self, t):
        p, v = t.a[0], t.a[1]
        if p.op == "ite":
            return self.join([self.deg(mk("lpval", x, v)) for x in leaves(p)])
        if p.op != "agg" or p.a[0] != "LP":
            return None
        cons = []
        part(p.a[4], None, cons)
        r = []
        for x in cons:
            e = linexpr(x.a[1])
            if e is None or v not in e:
                return None
            b, k = self.deg(e.get(None, const(0.0, "f64"))), self.deg(e[v])
            if b is None or k is None:
                return None
            r.append(ANY if b == ANY or k == ANY else b - k)
        return self.join(r) if r else None


def elems(t, out):
    if t.op == "seq":
        for x in t.a:
            elems(x, out)
    elif t.op == "rep":
        for x in t.a[2 + t.a[0]:]:
            elems(x, out)
    elif t.op == "one":
        out.append(t.a[1])
    elif t.op == "ite":
        for x in leaves(t):
            elems(x, out)
    elif is_arr(t):
        out += t.a[2:]


def written(t):
    """values stored into a container"""
    out = []

    def go(x):
        if x.op in ("wrs", "rep", "seq"):
            for y in x.a:
                if type(y) is T:
                    go(y)
        elif x.op == "w":
            out.append(x.a[2])
        elif x.op == "fill":
            out.append(x.a[0])
        elif x.op == "updi":
            go(x.a[0])
            out.append(x.a[2])
        elif x.op == "one":
            out.append(x.a[1])
    go(t)
    return out
