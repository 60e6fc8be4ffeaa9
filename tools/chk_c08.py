"""C08: a simplex search returns coordinates of the simplex it returns.

Searches are analysed on small abstract triangulations (known neighbours and vertices, unknown coordinates), once per
set of simplices whose transform cannot be computed and per simplex that the first walk can end at. For every simplex
that such a search can report, the conditions that must have held on the way there are collected from the decision graph
of the result and compared, as polynomials, with the tests that the property asks for; the coordinates left behind are
compared with the barycentric coordinates of the queried point in that simplex."""
from common import Check
import vbuild, search, poly, random
import chk_c07 as c7
from chk_c02 import subterms
from fractions import Fraction
from terms import *
from models import I0
from eng import Abort, arr2, index
from search import Must, under

NOTHING = search.NONE


def tris(n):
    return [search.chain(n, 1), c7.tri_shapes(n)[0]] + ([search.star(2), search.chain(2, 5)] if n == 2 else [search.chain(n, 3)])


def patterns(n, m):
    """which simplices are without a transform"""
    r = [[], [m // 2]]
    if n == 2:
        r += [[i] for i in (0, m - 1) if [i] not in r]
    if m > 1 and n == 2:
        r.append(list(range(m)))
    return r


def cases(d):
    """(name, maker of a search.Array) for every shape and pattern"""
    for n in (2, 3):
        nb = [b for b in d["bodies"] if b["name"] == "qhull_rs::Delaunay::<nalgebra::Const<%d>>::from_qhull_raw" % n]
        for sh in tris(n):
            m = len([f for f in sh.facets if not f[1]])
            for pat in patterns(n, m):
                name = "%d dimensions, %s, %s" % (n, sh.name, "all with transforms" if not pat else "no transform for %s" %
                                                  (", ".join(map(str, pat)) if len(pat) < m else "any"))
                if nb:
                    yield name, lambda n=n, sh=sh, nb=nb, pat=pat: search.Array(d, n, sh, nb[0], pat)
                for entry in ("find_best_simplex", "find_best_simplex__"):
                    if not [b for b in d["bodies"] if b["name"] == "qhull_rs::RawDelaunay::<nalgebra::Const<%d>>::%s" % (n, entry)]:
                        continue
                    for how in ("singular", "failed") if pat and n == 2 and entry == "find_best_simplex" else ("singular",):
                        yield name + (" (inversion fails)" if how == "failed" else ""), \
                            lambda sh=sh, pat=pat, entry=entry, how=how: search.Raw(d, sh, pat, entry, how)


ERR = (Abort, RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError)


def differ(A, p, q):
    """whether two polynomials differ as functions (exact evaluation at some points)"""
    for seed in range(3):
        rnd = random.Random(seed)
        V = {}

        def val(t):
            if t.op == "g":
                return grads[t]
            if t not in V:
                V[t] = Fraction(rnd.randint(-50, 50), rnd.randint(1, 9))
            return V[t]
        # the derivatives follow from the vertices
        grads = {}
        ok = True
        gs = [t for x in (p, q) for t in poly.terms(x) if t.op == "g"]
        for S in {tuple(num(y) for y in t.a[:A.n + 1]) for t in gs}:
            m = [[val(mk("qp", A.geo.q, I0(v), I0(j))) for j in range(A.n)] + [Fraction(1)] for v in S]
            inv = inverse(m)
            if inv is None:
                ok = False
                break
            for k, v in enumerate(S):
                for j in range(A.n):
                    grads[mk("g", *([I0(x) for x in S] + [I0(v), I0(j)]))] = inv[j][k]
        if ok and A.geo.value(p, val) != A.geo.value(q, val):
            return True
    return False


def inverse(m):
    n = len(m)
    a = [list(r) + [Fraction(int(i == j)) for j in range(n)] for i, r in enumerate(m)]
    for c in range(n):
        p = next((r for r in range(c, n) if a[r][c] != 0), None)
        if p is None:
            return None
        a[c], a[p] = a[p], a[c]
        x = a[c][c]
        a[c] = [y / x for y in a[c]]
        for r in range(n):
            if r != c and a[r][c] != 0:
                f = a[r][c]
                a[r] = [u - f * v for u, v in zip(a[r], a[c])]
    return [r[n:] for r in a]


def norm(A):
    """what a literal says of the coordinates: polynomials that are not negative"""
    eps, root = poly.of(A.eps), poly.of(mk("op", "fsqrt", A.eps))

    def f(c, v):
        if c.op != "op" or c.a[0] not in ("f<", "f<=") or len(c.a) != 3:
            return ()
        p, q = A.geo.of(c.a[1]), A.geo.of(c.a[2])
        if p is None or q is None:
            return ()
        x = poly.sub(q, p) if v else poly.sub(p, q)
        if not any(y.op == "g" for y in poly.terms(x)):
            return ()
        r = [("ge", frozenset(x.items()))]
        if all(x.get(k) == w for k, w in eps.items()):        # the wider tolerance follows from the normal one
            r.append(("ge", frozenset(poly.add(poly.sub(x, eps), root).items())))
        return r
    return f


def conditions(t):
    """the conditions that a decision graph tests"""
    seen, res, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            if x.op == "ite":
                todo += x.a
            elif x.op != "c":
                res.add(x)
    return res


def bounds(A, lits, B):
    """the polynomials known not to be negative, and whether some test of the coordinates was not understood"""
    f = norm(A)
    odd = any(any(y.op == "inv" for y in subterms(c)) and not f(c, True) for c in conditions(B))
    return [y[1] for y in lits if y[0] == "ge"], odd


def inner(A, i, j):
    """the vertex of simplex i that lies opposite simplex j, None if they are not neighbours"""
    d = A.simplices[i] - A.simplices[j]
    return next(iter(d)) if len(d) == 1 else None


def result(c, A, w, ret, coords, pc):
    if pc is FALSE:
        c.bad("search", w, "panics")
        return
    one = poly.of(const(1.0, "f64"))
    eps = poly.of(A.eps)
    root = poly.of(mk("op", "fsqrt", A.eps))
    must = Must(norm(A))
    for l in leaves(ret):
        if l.op != "c" or type(num(l)) is not int:
            c.unk("result", w, show(l, 3)[:100])
            return
    for l in sorted(leaves(ret), key=num):
        i = num(l)
        if i == NOTHING:
            continue
        wi = "%s, simplex %d" % (w, i)
        if not 0 <= i < A.M:
            c.bad("result", wi, "there is no such simplex")
            continue
        if i in A.degenerate:
            c.bad("transform", wi, "is reported although its transform could not be computed")
            continue
        c.ok("transform", wi, "has a transform")
        B = mapl(ret, lambda x: TRUE if x is l else FALSE)
        G = must(B, TRUE)
        if G is None:
            continue
        says, odd = bounds(A, G, B)
        S = A.simplices[i]
        wide = {inner(A, i, j) for j in A.degenerate}
        missing = []
        for k, v in enumerate(A.rows[i]):
            lam = [A.geo.lam(S, v, b) for b in S]
            low = [poly.add(x, eps) for x in lam] + ([poly.add(x, root) for x in lam] if v in wide else [])
            high = [poly.sub(poly.add(one, eps), x) for x in lam]
            for what, want in (("%s coordinate %d is at least -eps", low), ("%s coordinate %d is at most 1 + eps", high)):
                if not any(frozenset(x.items()) in says for x in want):
                    missing.append(what % ("that", k))
        if missing and odd:
            c.unk("tests", wi, missing[0])
        elif missing:
            c.bad("tests", wi, "is reported without a test %s%s" % (missing[0], " (and %d more)" % (len(missing) - 1) if missing[1:] else ""))
        else:
            c.ok("tests", wi, "every coordinate tested")
        if coords is None:
            continue
        for k, v in enumerate(A.rows[i]):
            t = under(coords[k], G)
            state = "ok"
            for x in leaves(t):
                p = A.geo.of(x)
                if A.geo.islam(p, S, v):
                    continue
                reach = And(B, mapl(t, lambda y: TRUE if y is x else FALSE)) if t.op == "ite" else TRUE
                if reach is FALSE:
                    continue
                if A.geo.pure(p) and differ(A, p, A.geo.lam(S, v, v)):
                    c.bad("coordinates", wi, "coordinate %d is left as %s" % (k, told(A, p, x)))
                    state = None
                    break
                state = "unk"
            if state == "ok":
                c.ok("coordinates", wi, "coordinate %d is that of its own vertex" % k)
            elif state:
                c.unk("coordinates", wi, "coordinate %d: %s" % (k, show(t, 4)[:150]))


def told(A, p, x):
    for j, S in enumerate(A.simplices):
        for v in S:
            if A.geo.islam(p, S, v):
                return "the coordinate of vertex %d in simplex %d" % (v, j)
    return show(x, 4)[:120]


def analyse(c, name, make, stat):
    try:
        A = make()
        states = A.states()
    except ERR as e:
        c.unk("search", name, "%s: %s" % (type(e).__name__, str(e)[:200]))
        return
    seen = set()

    def once(w, r):
        for ch, ret, coords, st, pc in r:
            key = (ret, tuple(coords or ()), pc)
            if key in seen:
                continue
            seen.add(key)
            stat["searches"] = stat.get("searches", 0) + 1
            walk = ", ".join(str(num(v)) for v in ch.values())
            result(c, A, "%s, %s%s" % (A.what(w), name, ", from simplex " + walk if walk else ""), ret, coords, pc)
    try:
        for sname, s, r in states:
            once("search", r)
        if A.kind == "array":
            once("bruteforce", A.search(A.split(A.new())[0][0], True))
        if A.kind == "array" or A.entry == "find_best_simplex":
            once("plain", A.search(A.split(A.new())[0][0], None))
    except ERR as e:
        c.unk("search", name, "%s: %s" % (type(e).__name__, str(e)[:200]))
        return
    for sname, s, r in states:
        direct(c, A, name, s)


def direct(c, A, name, state):
    """the coordinates in a given simplex"""
    st0, k0, n0 = A.st, A.k, A.T.n
    try:
        A.st = A.T.st = st0.clone()
        for f, i, cs in A.direct(state):
            S = A.simplices[i]
            w = "%s, %s, simplex %d" % (f, name, i)
            if cs is None or i in A.degenerate:
                c.bad("direct", w, "no transform, although it can be computed" if cs is None else "a transform that could not be computed")
                continue
            for k, x in enumerate(A.rows[i]):
                q = A.geo.of(cs[k])
                if A.geo.islam(q, S, x):
                    c.ok("direct", w, "coordinate %d" % k)
                elif A.geo.pure(q) and differ(A, q, A.geo.lam(S, x, x)):
                    c.bad("direct", w, "coordinate %d is %s" % (k, told(A, q, cs[k])))
                else:
                    c.unk("direct", w, show(cs[k], 4)[:100])
    except ERR as e:
        c.unk("direct", name, "%s: %s" % (type(e).__name__, str(e)[:200]))
    finally:
        A.st = A.T.st = st0
        A.k, A.T.n = k0, n0


def run():
    c = Check("C08", "for every simplex a search can report: the tests implied by the decision graph of the result are those of "
              "that simplex's own barycentric coordinates, which are also what is left in the caller's output")
    d = vbuild.mir()

    def job(name, make):
        def go(c):
            stat = {"triangulations": 1}
            analyse(c, name, make, stat)
            for k, v in stat.items():
                c.count(k, v)
        return go
    c.parallel([job(name, make) for name, make in cases(d)])
    return c.finish()
