"""Simplex searches on small triangulations: what a search reports, with which tests passed on the way there.

The triangulation is one of a few abstract ones (known lists, unknown coordinates and planes). The search is given as
value-flow terms; the walk from simplex to simplex shows as a recurrence, whose possible results are the values that
its step can take. Facts are collected by a must-analysis over the decision graph of the result."""
import itertools
import canon, eng, geo, models, poly, rawgeo
import chk_c07 as c7
from chk_c02 import subterms
from common import *
from eng import Interp, St, Abort, arr2, agg, ref, vr, Call, index
from fractions import Fraction
from models import I0
from terms import *

NONE = -1


# ---------------------------------------------------------------- triangulations
def chain(n, m):
    """m simplices in a row; simplex i has vertices i .. i+n; its other sides are outer sides"""
    vids = [3, 259, 65539, 16777219, 7, 11, 19, 23, 29, 31, 37, 41][:m + n + 1]
    fids = [5, 261, 65541, 517, 9, 13, 17, 21, 25, 33, 37]
    low = []
    for i in range(m):
        vs = list(range(i, i + n + 1))
        vs = vs[i % (n + 1):] + vs[:i % (n + 1)]
        low.append(vs)
    top = m + n
    facets = [[fids[0], True, list(range(n)) + [top], [1] * (n + 1)]]        # the upper facet comes first
    for i, vs in enumerate(low):
        nb = []
        for v in vs:
            if v == i and i + 1 < m:
                nb.append(i + 2)
            elif v == i + n and i > 0:
                nb.append(i)
            else:
                nb.append(0)
        facets.append([fids[i + 1], False, vs, nb])
    return c7.Shape("%d simplices in a row" % m if m > 1 else "one simplex", n, vids, [tuple(f) for f in facets])


def star(n):
    """n+1 simplices around an inner vertex: each has the inner vertex and all but one of the outer ones"""
    fids = [9, 5, 517, 261, 65541, 13, 17, 21, 25]
    vids = [3, 259, 65539, 16777219, 7, 11, 19, 23][:n + 2]
    facets = []
    for i in range(n + 1):
        outer = [j for j in range(n + 1) if j != i]
        vs = outer[:i] + [n + 1] + outer[i:]
        nb = [n + 1 if v == n + 1 else v for v in vs]      # opposite outer vertex v lies simplex v; opposite the inner one the upper facet
        facets.append((fids[i], False, vs, nb))
    facets.append((fids[n + 1], True, list(range(n + 1)), list(range(n + 1))))
    return c7.Shape("%d simplices around a point" % (n + 1), n, vids, facets)


# ---------------------------------------------------------------- must-facts on a decision graph
class Must:
    """Facts that hold on every way through a decision graph to some leaf. A fact is a literal (condition, truth) or
    whatever norm says of it (so that the same fact tested in two ways survives a join)."""

    def __init__(self, norm=lambda c, v: ()):
        self.norm = norm
        self.memo = {}

    def facts(self, c, v):
        """facts that hold when the condition c has the value v; None if it cannot"""
        if c.op == "c":
            return frozenset() if (c is TRUE) == v else None
        if c.op == "ite":
            r = self(c, TRUE if v else FALSE)
            return None if r is None else r | {(c, v)}
        return frozenset([(c, v)]) | frozenset(self.norm(c, v))

    def __call__(self, t, leaf):
        """facts that hold whenever t ends at leaf; None if it does not end there"""
        k = (t, leaf)
        if k in self.memo:
            return self.memo[k]
        if t.op != "ite":
            r = frozenset() if t is leaf else None
        else:
            rs = []
            for c, s in ((True, t.a[1]), (False, t.a[2])):
                a = self(s, leaf)
                if a is None:
                    continue
                f = self.facts(t.a[0], c)
                if f is None:
                    continue
                x = a | f
                if any((y[0], not y[1]) in x for y in x if type(y[1]) is bool):
                    continue
                rs.append(x)
            r = None if not rs else frozenset.intersection(*rs)
        self.memo[k] = r
        return r


def literals(facts):
    return {y for y in facts if type(y[1]) is bool}


def under(t, lits):
    """t given literals"""
    return c7.resolve(t, dict(literals(lits)))


def put(t, m):
    """t with the terms in m replaced, outermost first"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            if x in m:
                r = m[x]
            elif x.op in ("c", "v", "qp", "qn", "qo", "loc", "fr", "bv"):
                r = x
            else:
                na = [go(y) if type(y) is c7.T_ else y for y in x.a]
                r = x if all(p is q for p, q in zip(na, x.a)) else canon.rebuild(x.op, tuple(na))
            memo[x] = r
        return r
    return go(t)


# ---------------------------------------------------------------- barycentric algebra
class Geo:
    """Coordinates as polynomials over g(S, v, j), the derivative of vertex v's coordinate in simplex S along axis j."""

    def __init__(self, q, n, P):
        self.q, self.n, self.P = q, n, P
        self.memo = {}

    def place(self, t):
        """(vertex, axis) of qp"""
        if t.op == "qp" and t.a[0] is self.q and num(t.a[1]) is not None:
            return num(t.a[1]), num(t.a[2])
        return None

    def x(self, v, j):
        return poly.of(mk("qp", self.q, I0(v), I0(j)))

    def decode(self, M):
        """the matrix M, by columns: (kind, vertices per column, base, transposed)"""
        if M in self.memo:
            return self.memo[M]
        r = self._decode(M)
        self.memo[M] = r
        return r

    def _decode(self, M):
        if not eng.is_arr(M):
            return None
        els = [poly.of(x) for x in M.a[2:]]
        n = self.n
        for m, kind in ((n, "edge"), (n + 1, "hom")):
            if len(els) != m * m or any(e is None for e in els):
                continue
            for tr in (False, True):
                cols = [[els[r * m + c] if tr else els[c * m + r] for r in range(m)] for c in range(m)]
                got = [self.column(c, kind) for c in cols]
                if any(g is None for g in got):
                    continue
                vs = [g[0] for g in got]
                bases = {g[1] for g in got}
                if len(bases) == 1 and len((set(vs) | bases) - {NONE}) == n + 1:
                    return kind, vs, bases.pop(), tr
        return None

    def column(self, col, kind):
        n = self.n
        if kind == "hom":
            if col[n] != poly.of(const(1.0, "f64")):
                return None
            for v in range(32):
                if all(col[j] == self.x(v, j) for j in range(n)):
                    return v, NONE
            return None
        # difference of two vertices
        ks = sorted(col[0].items(), key=lambda kv: -kv[1]) if col[0] else []
        if len(ks) != 2 or [c for _, c in ks] != [1, -1]:
            return None
        a, b = (self.place(poly._t[k[0]]) if len(k) == 1 else None for k, _ in ks)
        if a is None or b is None:
            return None
        v, w = a[0], b[0]
        if all(col[j] == poly.sub(self.x(v, j), self.x(w, j)) for j in range(n)):
            return v, w
        return None

    def g(self, S, v, j):
        last = max(S)
        if v != last:
            return poly.of(mk("g", *([I0(x) for x in sorted(S)] + [I0(v), I0(j)])))
        r = {}
        for w in S:
            if w != last:
                r = poly.sub(r, self.g(S, w, j))
        return r

    def simplex_of(self, M):
        dec = self.decode(M)
        if dec is None:
            return None
        kind, vs, b, tr = dec
        return frozenset(vs) | (frozenset([b]) if b != NONE else frozenset())

    def elem(self, t):
        """an element of an inverse as a polynomial"""
        if t.op == "idx" and t.a[0].op == "inv":
            M, e = t.a[0].a[0], num(t.a[1])
            i = t.a[1]
            if e is None and i.op == "agg" and i.a[0] == "tuple" and eng.is_arr(M) and num(i.a[2]) is not None and num(i.a[3]) is not None:
                e = num(i.a[3]) * M.a[1] + num(i.a[2])
            if e is None:
                return None
            dec = self.decode(M)
            if dec is None:
                return None
            kind, vs, b, tr = dec
            S = self.simplex_of(M)
            m = self.n + (kind == "hom")
            row, col = e % m, e // m
            if tr:
                row, col = col, row
            v = vs[row]
            if col < self.n:
                return self.g(S, v, col)
            return self.lam(S, v, v, [{}] * self.n)      # the constant term
        return None

    def lam(self, S, v, b, P=None):
        P = P if P is not None else [poly.of(x) for x in self.P]
        r = poly.of(const(1.0, "f64")) if v == b else {}
        for j in range(self.n):
            r = poly.add(r, poly.mul(self.g(S, v, j), poly.sub(P[j], self.x(b, j))))
        return r

    def of(self, t):
        """polynomial with the inverses' elements rewritten"""
        k = ("p", t)
        if k in self.memo:
            return self.memo[k]
        p = poly.of(t)
        r = None
        if p is not None:
            r = {}
            for mono, c in p.items():
                q = {(): c}
                for i in mono:
                    a = poly._t[i]
                    e = self.elem(a)
                    q = poly.mul(q, e if e is not None else {(i,): Fraction(1)})
                    if q is None:
                        break
                if q is None:
                    r = None
                    break
                r = poly.add(r, q)
        self.memo[k] = r
        return r

    def islam(self, p, S, v):
        return p is not None and any(p == self.lam(S, v, b) for b in S)

    def pure(self, p, more=()):
        """only g, vertices, the point and the tolerance occur"""
        return p is not None and poly.atoms(p) <= {"g", "qp", "v"} | set(more)

    def value(self, p, rnd):
        """p at some choice of vertices and point (exact)"""
        r = Fraction(0)
        for mono, c in p.items():
            x = c
            for i in mono:
                x *= rnd(poly._t[i])
            r += x
        return r


# ---------------------------------------------------------------- the searches of the array form
class Array:
    kind = "array"
    """A triangulation's array form, its searcher, and the states it can be in between searches."""

    def __init__(self, d, n, sh, newb, degenerate=None):
        """degenerate: the simplices without a transform (None: any of them may have one or not)"""
        self.d, self.n, self.sh = d, n, sh
        self.degenerate = degenerate
        self.walks = {}
        self.T = c7.Table(d, newb, sh)
        self.I, self.st = self.T.I, self.T.st
        self.I.deep = True
        self.low = [f for f in sh.facets if not f[1]]
        self.M = len(self.low)
        self.cls = "qhull_rs::delaunay::SimplexSearcher::<'_, nalgebra::Const<%d>>::" % n
        self.eps = var("eps")
        self.P = [var("P", k) for k in range(n)]
        self.k = 0
        # which raw vertex each vertex of the array form is
        hs = self.T.items(self.T.call("::vertices", self.T.t), len(sh.vids) + 2)
        self.places = [c7.coords(self.T, self.T.call("Vertex::point", self.T.local(h)), n) for h in hs]
        self.rows = []
        for h in self.T.items(self.T.call("::simplices", self.T.t), len(sh.facets) + 2):
            vs = self.T.items(self.T.call("Simplex::vertices", self.T.local(h)), n + 2)
            self.rows.append([self.places[num(self.T.call("Vertex::index", self.T.local(v)))] for v in vs])
        self.geo = Geo(self.T.q, n, self.P)
        self.simplices = [frozenset(r) for r in self.rows]
        if degenerate is not None:
            self.I.invertible = self.invertible

    def invertible(self, M):
        S = self.geo.simplex_of(M)
        if S not in self.simplices:
            raise Abort("the inverse of a matrix that is not known: %s" % show(M, 9)[:450])
        return FALSE if self.simplices.index(S) in self.degenerate else TRUE

    def bound(self, t):
        """(axis, "max" or "min") of an extreme of all vertices' coordinates, "other" for another one, None if not known"""
        if t.op != "idx" or t.a[1].op != "argbest":
            return None
        qs = {x for x in subterms(t) if x.op == "qp"}
        b = t.a[1].a
        if len(b) != 6 or b[5].op != "cmp" or b[5].a[0] is b[5].a[1] or set(b[5].a) != {b[1], b[2]} or b[3].a[0] not in ("max", "min"):
            return None
        how = [b[3].a[0] if b[5].a[0] is b[1] else {"max": "min", "min": "max"}[b[3].a[0]]]
        if any(num(x.a[1]) is None or num(x.a[2]) is None for x in qs):
            return None
        axes = {num(x.a[2]) for x in qs}
        if len(axes) != 1 or not frozenset.union(*self.simplices) <= {num(x.a[1]) for x in qs}:
            return "other"
        return axes.pop(), how[0]

    def what(self, w):
        return "SimplexSearcher::find_simplex" + {"bruteforce": "_mut (bruteforce)", "plain": ""}.get(w, "_mut")

    def body(self, f):
        r = [b for b in self.d["bodies"] if b["name"] == self.cls + f]
        return r[0] if r else None

    def run(self, f, *args):
        b = self.body(f)
        if b is None:
            raise Abort("no function " + f)
        self.k += 1
        return self.I.run(b, list(args), self.st, mk("fr", "srch", self.k))

    def searcher(self, eps=True):
        s = self.T.local(self.run("new", self.T.t))
        if eps:
            self.run("set_eps", s, self.eps)
        return s

    def new(self):
        """the state of a new searcher: its value"""
        s = self.searcher()
        return self.I.load(self.st, s)

    def search(self, state, bruteforce=False, most=60):
        """the cases of a search: (where the walk ended, result index term (NONE for none), coordinates, the searcher's
        state afterwards, whether it can get through)"""
        st0, k0, n0 = self.st, self.k, self.T.n
        todo, seen, res = [{}], set(), []
        while todo:
            ch = todo.pop(0)
            key = tuple(sorted((k.id, v.id) for k, v in ch.items()))
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > most:
                raise Abort("too many cases")
            new = []

            def choose(r, info, rel):
                if r.op not in ("rec", "fold") or not discrete(r):
                    return r
                self.walks.setdefault(r, None)
                vals = self.walks[r] = self.walks[r] or values(r, self.I, info, rel)
                if r not in ch:
                    ch[r] = vals[0]
                    new.append((r, dict(ch), vals))
                return ch[r]
            self.I.choose = choose
            self.st = self.T.st = st0.clone()
            self.k, self.T.n = k0, n0
            try:
                one = self.once(state, bruteforce)
            finally:
                self.I.choose = None
            res.append((dict(ch),) + one + (self.st.pc,))
            for r, c, vals in new:
                for v in vals[1:]:
                    c2 = {k: x for k, x in c.items()}
                    c2[r] = v
                    todo.append(c2)
        self.st = self.T.st = st0
        return res

    def once(self, state, bruteforce):
        s = self.T.local(state)
        if bruteforce is None:
            return self.number(self.run("find_simplex", s, self.T.local(arr2(self.n, *self.P)))), None, self.I.load(self.st, s)
        if bruteforce:
            self.run("set_bruteforce", s, TRUE)
        out = self.T.local(arr2(self.n + 1, *[var("old", k) for k in range(self.n + 1)]))
        p = self.T.local(arr2(self.n, *self.P))
        r = self.run("find_simplex_mut", s, p, out)
        return (self.number(r), [index(self.I.load(self.st, out), I0(k)) for k in range(self.n + 1)],
                self.I.load(self.st, s))

    def direct(self, state):
        """(function, simplex, its coordinates of the point) as the caller can ask for them"""
        s = self.T.local(state)
        for i, h in enumerate(self.T.items(self.T.call("::simplices", self.T.t), self.M + 2)):
            if i not in self.degenerate:
                v = self.T.deref(self.run("barycentric_coords", s, h, arr2(self.n, *self.P)))
                yield "barycentric_coords", i, [index(v, I0(k)) for k in range(self.n + 1)]

    def number(self, r):
        def one(l):
            if l.op != "agg" or l.a[1] not in (0, 1):
                raise Abort("a result that is no option: %s" % show(l, 3)[:100])
            if l.a[1] == 0:
                return I0(NONE)
            return self.T.call("Simplex::index", self.T.local(l.a[2]))
        return mapl(r, one)

    # ------------------------------------------------ states between searches
    def split(self, state):
        """the concrete states that a searcher's value stands for"""
        cells = [x for x in subterms(state) if x.op == "agg" and x.a[0] == "cell"]
        if not cells:
            return [(state, "")]
        res = [({}, "")]
        for c in cells:
            new = []
            for v in self.concrete(c.a[2]):
                for m, s in res:
                    m2 = dict(m)
                    m2[c] = agg("cell", c.a[1], v)
                    new.append((m2, s + (", " if s else "") + show(v, 4)))
            res = new
        return [(put(state, m), s) for m, s in res]

    def concrete(self, v):
        """the values without choices"""
        return plain(v)

    def states(self, most=40):
        """every state that searches lead to, from a new searcher"""
        todo, seen, res = self.split(self.new()), set(), []
        while todo:
            s, name = todo.pop(0)
            if name in seen:
                continue
            seen.add(name)
            if len(seen) > most:
                raise Abort("too many states between searches")
            r = self.search(s)
            res.append((name, s, r))
            for x in r:
                todo += self.split(x[3])
        return res


def plain(t, memo=None, most=64):
    """the choice-free values of t"""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "ite":
        r = list(dict.fromkeys(plain(t.a[1], memo) + plain(t.a[2], memo)))
    elif t.op == "agg":
        r = [()]
        for x in t.a:
            xs = plain(x, memo) if type(x) is c7.T_ else [x]
            r = [y + (z,) for y in r for z in xs]
            if len(r) > most:
                raise Abort("too many values")
        r = [mk("agg", *y) for y in r]
    else:
        r = [] if t is BOT else [t]
    if len(r) > most:
        raise Abort("too many values")
    memo[t] = r
    return r


def recs(t):
    """recurrences of integers (or handles) in t that are not inside others"""
    res, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x in seen or type(x) is not c7.T_:
            continue
        seen.add(x)
        if x.op in ("rec", "fold"):
            if discrete(x):
                res.append(x)
                continue
        st += [y for y in x.a if type(y) is c7.T_]
    return sorted(res, key=lambda x: x.id)


def parts(r):
    """(bound round, variables, condition, initial values, steps)"""
    k = r.a[0]
    bv, rest = r.a[1:1 + k], r.a[1 + k:]
    return bv[0], bv[1:], rest[0], rest[1:k], rest[k:]


def isint(t):
    n = num(t)
    return n is not None and type(n) is int


def discrete(r):
    return all(isint(l) or l.op == "agg" for l in leaves(parts(r)[3][0]))


def values(r, I, info, rel, most=200):
    """the values that a recurrence of integers can take: the loop's variables rel, r that of the first"""
    init = [I.mu_init(info, m) for m in rel]
    step = [I.mu_back(info, m) for m in rel]
    go = mapl(info["brk"], lambda x: FALSE if x is TRUE else TRUE if x is FALSE else Not(x))
    V = discretes(go, rel, init, step, most)
    if rel[0] not in V:
        raise Abort("a recurrence that is not of integers: %s" % show(r, 6)[:600])
    return sorted(V[rel[0]], key=lambda t: num(t))


def discretes(go, ms, init, step, most=200):
    """the values of a loop's integers and truth values; go: the condition for another round"""
    V = {m: set(leaves(i)) for m, i in zip(ms, init) if all(isint(l) or l in (TRUE, FALSE) for l in leaves(i))}
    back = {m: b for m, b in zip(ms, step) if m in V}
    done = set()
    while True:
        new = [c for c in itertools.product(*[sorted(V[m], key=lambda t: t.id) for m in V]) if c not in done]
        if not new:
            return V
        if len(done) + len(new) > most:
            raise Abort("a recurrence with too many values")
        for c in new:
            done.add(c)
            sub_ = dict(zip(V, c))
            g = subst(go, sub_)
            lits = Must()(g, TRUE)
            if lits is None:
                continue
            for m, b in back.items():
                t = under(subst(b, sub_), lits)
                for l in leaves(t):
                    if t.op == "ite" and And(g, mapl(t, lambda x: TRUE if x is l else FALSE)) is FALSE:
                        continue
                    if not (isint(l) or l in (TRUE, FALSE)):
                        raise Abort("a recurrence with the value %s" % show(l, 3)[:100])
                    V[m].add(l)


# ---------------------------------------------------------------- the searches of the raw form
FACET, VERTEX = "qhull_rs::raw::Facet", "qhull_rs::raw::Vertex"
UNIT = agg("tuple", 0)


PD = agg("std::marker::PhantomData", 0)


def facet(i):
    return agg(FACET, 0, i, PD)


def rawshape(sh):
    """contracts for a raw triangulation; a handle's pointer is its place in qhull's list"""
    q = var("q", "raw")
    n = sh.n
    nf = len(sh.facets)

    def at(vals):
        a = arr2(len(vals), *[I0(x) for x in vals])
        return lambda i: index(a, i)

    def ptr(cx, k=0):
        return geo.fieldv(geo.handle(cx, k), 0)
    C = {k: f for k, f in rawgeo.C.items() if k.endswith("Iterator>::next")}
    for f in ("vertices", "full_vertices"):
        C["qhull_rs::RawDelaunay::" + f] = lambda cx: models.it(models.D("srcv", arr2(len(sh.vids), *[agg(VERTEX, 0, I0(i), PD) for i in range(len(sh.vids))])))
    for f in ("simplices", "full_simplices"):
        C["qhull_rs::RawDelaunay::" + f] = lambda cx: models.it(models.D("srcv", arr2(nf, *[facet(I0(i)) for i in range(nf)])))
    vs = [at([f[2][k] for f in sh.facets]) for k in range(n + 1)]
    ns = [at([f[3][k] for f in sh.facets]) for k in range(n + 1)]
    ids, up, vids = at([f[0] for f in sh.facets]), at([int(f[1]) for f in sh.facets]), at(sh.vids)
    C[FACET + "::vertices"] = lambda cx: models.it(models.D("srcv", arr2(n + 1, *[agg(VERTEX, 0, v(ptr(cx)), PD) for v in vs])))
    C[FACET + "::neighbors"] = lambda cx: models.it(models.D("srcv", arr2(n + 1, *[facet(v(ptr(cx))) for v in ns])))
    C[FACET + "::id"] = lambda cx: ids(ptr(cx))
    C[FACET + "::is_upper_delaunay"] = lambda cx: eng.eq(up(ptr(cx)), I0(1))
    C[FACET + "::eq"] = lambda cx: eng.eq(ptr(cx), ptr(cx, 1))
    C["<%s<'a, N> as std::cmp::PartialEq>::eq" % FACET] = C[FACET + "::eq"]
    C[FACET + "::offset"] = lambda cx: mk("qo", q, ptr(cx))
    C[FACET + "::normal"] = lambda cx: vr(arr2(n + 1, *[mk("qn", q, ptr(cx), I0(c)) for c in range(n + 1)]))
    C[VERTEX + "::id"] = lambda cx: vids(ptr(cx))
    C[VERTEX + "::point"] = lambda cx: vr(arr2(n, *[qp(q, ptr(cx), c) for c in range(n)]))

    def qp(q, i, c):
        return mapl(i, lambda x: mk("qp", q, x, I0(c)))

    def plane(cx):
        i = ptr(cx)
        p = cx.val(1)
        r = mk("qo", q, i)
        for c in range(n + 1):
            r = eng.fop("f+", r, eng.fop("f*", mk("qn", q, i, I0(c)), index(p, I0(c))))
        return r
    C[FACET + "::plane_distance"] = plane

    def project(cx):
        p = cx.args[1]
        v = cx.load(p)
        cx.I.store(cx.st, p, arr2(n + 1, *([index(v, I0(c)) for c in range(n)] + [var("lift", "raw")])))
        return UNIT
    C["qhull_rs::RawDelaunay::project_point"] = project
    return C, q


class Raw(Array):
    kind = "raw"
    """A raw triangulation with its solver cache; the states in between searches are the hint's values."""

    def __init__(self, d, sh, degenerate, entry, how="singular"):
        n = sh.n
        # small ids (the number of rounds depends on them), not in the list's order
        sh = c7.Shape(sh.name, n, sh.vids, [(len(sh.facets) - i,) + tuple(f[1:]) for i, f in enumerate(sh.facets)])
        self.d, self.n, self.sh, self.entry, self.how = d, n, sh, entry, how
        self.walks = {}
        self.k = 0
        self.T = c7.Table.__new__(c7.Table)          # for its locals and iterators
        T = self.T
        T.d, T.sh, T.kind, T.n = d, sh, "Delaunay", 0
        C, self.q = rawshape(sh)
        T.I = self.I = Interp(d, dict(geo.MODELS))
        T.I.contracts = C
        T.q = self.q
        self.st = T.st = St()
        self.I.deep = True
        self.cls = "qhull_rs::RawDelaunay::<nalgebra::Const<%d>>::" % n
        self.eps = var("eps")
        self.P = [var("P", k) for k in range(n)]
        self.low = [i for i, f in enumerate(sh.facets) if not f[1]]
        self.M = len(self.low)
        self.rows = [sh.facets[i][2] for i in self.low]
        self.simplices = [frozenset(r) for r in self.rows]
        self.degenerate = degenerate
        self.geo = Geo(self.q, n, self.P)
        self.I.invertible = self.invertible
        self.I.determinant = self.determinant
        self.tri = T.local(agg("qhull_rs::RawDelaunay", 0, var("cv"),
                               arr2(n, *[var("hi", k) for k in range(n)]), arr2(n, *[var("lo", k) for k in range(n)])))
        self.cache = T.local(self.run("compute_barycentric_solver_cache", self.tri))

    def bound(self, t):
        if t.op == "v" and len(t.a) == 2 and t.a[0] in ("hi", "lo"):
            return t.a[1], "max" if t.a[0] == "hi" else "min"
        return None

    def bad(self, M):
        S = self.geo.simplex_of(M)
        if S not in self.simplices:
            if any(x.op == "qp" and num(x.a[1]) is None for x in subterms(M)):
                return None
            raise Abort("a matrix that is not known: %s" % show(M, 9)[:450])
        return self.simplices.index(S) in self.degenerate

    def determinant(self, M):
        b = self.bad(M)
        return None if b is None else const(0.0, "f64") if b and self.how == "singular" else const(1.0, "f64")

    def invertible(self, M):
        b = self.bad(M)
        return None if b is None else FALSE if b else TRUE

    def what(self, w):
        return "raw " + self.entry + {"bruteforce": "", "plain": " (no output)"}.get(w, "")

    def split(self, state):
        return [(state, "" if state is UNIT else show(state, 4))]

    def new(self):
        return UNIT

    def once(self, state, bruteforce):
        """state: the facet that the caller's hint is, UNIT for no hint"""
        T = self.T
        opt = lambda v: agg("std::option::Option", 1, v)
        none = agg("std::option::Option", 0)
        h = T.local(state)
        hint = none if state is UNIT else opt(h)
        p = arr2(self.n, *self.P)
        eps = opt(self.eps)
        out = T.local(arr2(self.n + 1, *[var("old", k) for k in range(self.n + 1)]))
        if self.entry == "find_best_simplex":
            plain = bruteforce is None
            r = self.run("find_best_simplex", self.tri, p, self.cache, eps, none if plain else opt(out), hint)
        else:
            plain = True
            r = self.run("find_best_simplex__", self.tri, p, self.cache, eps, hint)
        r = self.number(r)
        after = self.I.load(self.st, h)
        return r, None if plain else [index(self.I.load(self.st, out), I0(k)) for k in range(self.n + 1)], after

    def number(self, r):
        def one(l):
            if l.op != "agg" or l.a[1] not in (0, 1):
                raise Abort("a result that is no option: %s" % show(l, 3)[:100])
            if l.a[1] == 0:
                return I0(NONE)
            return mapl(geo.fieldv(l.a[2], 0), self.place)
        return mapl(r, one)

    def direct(self, state):
        bs = {f: [b for b in self.d["bodies"] if b["name"] == "qhull_rs::raw::BarycentricSolver%s::<nalgebra::Const<%d>>::%s" % (t, self.n, f)]
              for t, f in (("Cache", "get"), ("", "solve"), ("", "solve_mut"))}
        if any(not b for b in bs.values()) or state is not UNIT:
            return
        T = self.T

        def run(f, *a):
            self.k += 1
            return self.I.run(bs[f][0], list(a), self.st, mk("fr", "srchd", self.k))
        p = arr2(self.n, *self.P)
        for i, f in enumerate(self.low):
            r = run("get", self.cache, T.local(facet(I0(f))))
            if r.op != "agg":
                raise Abort("a solver that may not be there")
            if r.a[1] == 0:
                if i not in self.degenerate:
                    yield "BarycentricSolverCache::get", i, None
                continue
            v = T.deref(run("solve", r.a[2], p))
            yield "BarycentricSolver::solve", i, [index(v, I0(k)) for k in range(self.n + 1)]
            out = T.local(arr2(self.n + 1, *[var("old", k) for k in range(self.n + 1)]))
            run("solve_mut", r.a[2], p, out)
            v = self.I.load(self.st, out)
            yield "BarycentricSolver::solve_mut", i, [index(v, I0(k)) for k in range(self.n + 1)]

    def place(self, i):
        if num(i) is None:
            return i
        return I0(self.low.index(num(i)) if num(i) in self.low else self.M + num(i))

    def states(self, most=40):
        todo, seen, res = [UNIT] + [facet(I0(i)) for i in self.low], set(), []
        while todo:
            s = todo.pop(0)
            if s in seen:
                continue
            seen.add(s)
            r = self.search(s)
            res.append((show(s, 4), s, r))
            for x in r:
                todo += plain(x[3])
        return res
