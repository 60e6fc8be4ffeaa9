"""C07: hull and triangulation tables index what they claim to.

Small raw hulls and triangulations are given as abstract heaps: concrete lists, ids, members and upper-Delaunay flags,
unknown coordinates, normals and offsets. The array form's constructor and accessors are analysed on them, and every
handle's points, plane and neighbours are compared with those of the qhull facet it stands for."""
import re
from common import Check
import vbuild, rawgeo, rawc, geo, models, canon
from rawc import short
from terms import *
from models import I0
from eng import Interp, St, Abort, Call, index, normkey
from chk_c02 import subterms
import poly

NEXT = geo.MODELS["std::iter::Iterator::next"]


class Shape:
    """A raw structure: vertex ids; facets as (id, upper, vertices, neighbours). Ids differ in every byte but look alike
    when they are cut short."""

    def __init__(self, name, n, vids, facets):
        self.name, self.n, self.vids, self.facets = name, n, vids, facets


def hull_shapes(n):
    vids = [3, 259, 65539, 16777219, 7, 11]
    fids = [5, 261, 65541, 16777221, 9, 13, 17, 21]
    # a simplex: facet i lacks vertex i; neighbour opposite vertex j is facet j
    fs = []
    for i in range(n + 1):
        vs = [j for j in range(n + 1) if j != i]
        if i % 2:
            vs = vs[1:] + vs[:1]
        fs.append((fids[i], False, vs, list(vs)))
    order = list(range(n + 1))[::-1]          # qhull's facet list need not be in id order
    pos = {f: k for k, f in enumerate(order)}
    a = Shape("a simplex", n, vids[:n + 1], [(fs[f][0], False, fs[f][2], [pos[x] for x in fs[f][3]]) for f in order])
    r = [a]
    if n == 3:
        # two tetrahedra glued at a face: vertices 0..4, apexes 3 and 4
        t = [(0, 1, 3), (1, 2, 3), (2, 0, 3), (1, 0, 4), (2, 1, 4), (0, 2, 4)]
        nb = []
        for i, f in enumerate(t):
            nb.append([next(k for k, g in enumerate(t) if k != i and set(f) - {v} <= set(g)) for v in f])
        r.append(Shape("a double pyramid", n, vids[:5], [(fids[i], False, list(t[i]), nb[i]) for i in range(6)]))
    return r


def tri_shapes(n):
    """facets of the lifted hull: simplices with n+1 vertices; some of them upper"""
    vids = [3, 259, 65539, 16777219, 7, 11, 19, 23]
    fids = [5, 261, 65541, 16777221, 9, 13, 17, 21, 25]
    base = list(range(n))
    # two simplices on a common face, apexes n and n+1, and upper facets next to the other faces
    s0, s1 = base + [n], [n + 1] + base
    low = [s0, s1]
    up = [[v for v in s0 if v != s0[0]] + [n + 2], [v for v in s1 if v != n + 1 and v != base[0]] + [n + 1, n + 2]]

    def make(order, name):
        fac = {"a": s0, "b": s1, "u": up[0], "w": up[1]}
        pos = {k: i for i, k in enumerate(order)}
        res = []
        for k in order:
            vs = fac[k]
            nb = []
            for j, v in enumerate(vs):
                if k == "a":
                    nb.append("b" if v == n else ("u", "w")[j % 2])
                elif k == "b":
                    nb.append("a" if v == n + 1 else ("w", "u")[j % 2])
                else:
                    nb.append(("a", "b", "u", "w")[j % 4])
            res.append((fids[pos[k]], k in "uw", vs, [pos[x] for x in nb]))
        return Shape(name, n, vids[:n + 3], res)
    # three simplices in a row, no upper neighbours shared
    return [make("uabw", "upper facets around"), make("bwau", "upper facets between"),
            make("bawu", "upper facets last")]


def contracts(sh):
    C = dict(rawgeo.C)
    cv = lambda x: num(x)

    def lst(kind, n):
        def f(cx):
            q = geo.handle(cx)
            return models.it(models.D("srcv", arr2(n, *[agg(kind, 0, q, I0(i)) for i in range(n)])))
        return f
    from eng import arr2, agg
    for k in ("RawHull::vertices", "RawDelaunay::vertices", "RawDelaunay::full_vertices"):
        C["qhull_rs::" + k] = lst(rawgeo.QV, len(sh.vids))
    for k in ("RawHull::facets", "RawDelaunay::simplices", "RawDelaunay::full_simplices"):
        C["qhull_rs::" + k] = lst(rawgeo.QF, len(sh.facets))

    def member(kind, col):
        def f(cx):
            h = geo.handle(cx)
            q, i = geo.fieldv(h, 0), geo.fieldv(h, 1)
            k = len(sh.facets[0][2])
            if i.op == "c":
                return models.it(models.D("srcv", arr2(k, *[agg(kind, 0, q, I0(x)) for x in sh.facets[num(i)][col]])))
            raise Abort("a facet that is not known")
        return f
    C["qhull_rs::raw::Facet::vertices"] = member(rawgeo.QV, 2)
    C["qhull_rs::raw::Facet::neighbors"] = member(rawgeo.QF, 3)

    def of(f):
        def g(cx):
            i = geo.fieldv(geo.handle(cx), 1)
            if i.op != "c":
                raise Abort("a handle that is not known: %s" % show(i, 5)[:150])
            return f(num(i))
        return g
    C["qhull_rs::raw::Facet::id"] = of(lambda i: I0(sh.facets[i][0]))
    C["qhull_rs::raw::Vertex::id"] = of(lambda i: I0(sh.vids[i]))
    C["qhull_rs::raw::Facet::is_upper_delaunay"] = of(lambda i: TRUE if sh.facets[i][1] else FALSE)
    return C


class Table:
    """an array form and its accessors"""

    def __init__(self, d, b, sh):
        self.d, self.b, self.sh = d, b, sh
        self.kind = "Delaunay" if "Delaunay" in b["name"] else "Hull"
        self.I = I = Interp(d, dict(geo.MODELS))
        I.contracts = contracts(sh)
        I.rawkind = self.kind
        self.st = St()
        self.q = var("q", b["name"])
        self.n = 0
        v = I.run(b, [self.q], self.st, mk("fr", "c07", b["id"]))
        self.t = self.local(v)

    def local(self, v):
        self.n += 1
        l = mk("loc", mk("fr", "c07l", self.n), 0)
        self.st.mem[l] = v
        return mk("ref", l)

    def body(self, name):
        p = "qhull_rs::convex_hull::" if self.kind == "Hull" else "qhull_rs::delaunay::"
        cls = "qhull_rs::ConvexHull" if self.kind == "Hull" else "qhull_rs::Delaunay"
        n = self.sh.n
        typ, f = name.split("::")
        want = "%s::<nalgebra::Const<%d>>::%s" % (cls, n, f) if typ == "" else "%s%s::<'_, nalgebra::Const<%d>>::%s" % (p, typ, n, f)
        r = [b for b in self.d["bodies"] if b["name"] == want]
        return r[0] if r else None

    def call(self, name, *args):
        b = self.body(name)
        if b is None:
            return None
        self.n += 1
        return self.I.run(b, list(args), self.st, mk("fr", "c07c", self.n))

    def items(self, it, most):
        """the elements of an iterator, one after the other"""
        l = self.local(it)
        res = []
        for k in range(most + 1):
            self.n += 1
            cx = Call(self.I, {"p": "std::iter::Iterator::next"}, [l], self.st, mk("fr", "c07n", self.n), None, None)
            r = NEXT(cx)
            if r.op == "ite" and all(l.op == "agg" and l.a[1] == 1 for l in leaves(r)):
                res.append(mapl(r, lambda l: l.a[2]))
                continue
            if r.op == "ite" and all(l.op == "agg" and l.a[1] == 0 for l in leaves(r)):
                return res
            if r.op != "agg":
                raise Abort("an iterator of unknown length: " + str(set(show(l,3)[:150] for l in leaves(r))))
            if r.a[1] == 0:
                return res
            res.append(r.a[2])
        return res

    def deref(self, v):
        n = 0
        while v.op in ("ref", "vr") and n < 6:
            v = self.I.load(self.st, v)
            n += 1
        return v


def coords(T, v, n):
    """the place in qhull's vertex list of a point, None if it is not one"""
    v = T.deref(v)
    cs = [index(v, I0(k)) for k in range(n)]
    i = None
    for k, x in enumerate(cs):
        if x.op != "qp" or num(x.a[2]) != k:
            return None
        if i is not None and i is not x.a[1]:
            return None
        i = x.a[1]
    return num(i) if i is not None else None


def assignments(ts):
    """the values of all the terms under each case of the conditions in them"""
    atoms = set()
    for t in ts:
        for x in subterms(t):
            if x.op == "ite":
                atoms.add(x.a[0])
    return sorted(atoms, key=lambda x: x.id)


def resolve(t, A):
    """t under an assignment of conditions"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            if x.op == "ite" and x.a[0] in A:
                r = go(x.a[1] if A[x.a[0]] else x.a[2])
            elif x.op in ("c", "v", "qp", "qn", "qo"):
                r = x
            else:
                na = [go(y) if type(y) is T_ else y for y in x.a]
                r = x if all(p is q for p, q in zip(na, x.a)) else canon.rebuild(x.op, tuple(na))
            memo[x] = r
        return r
    return go(t)


T_ = type(TRUE)


def check(c, d, b, sh):
    w = "%s, %s" % (short(b), sh.name)
    try:
        T = Table(d, b, sh)
    except Abort as e:
        c.unk("table", w, str(e)[:200])
        return
    if T.st.pc is FALSE:
        c.bad("table", w, "panics")
        return
    n = sh.n
    try:
        vertices(c, T, w, n)
        facets(c, T, w, n)
    except Abort as e:
        c.unk("accessors", w, str(e)[:200])
    except (IndexError, AttributeError, KeyError) as e:
        c.unk("accessors", w, "%s: %s" % (type(e).__name__, str(e)[:150]))


def vertices(c, T, w, n):
    it = T.call("::vertices", T.t)
    if it is None:
        c.unk("vertices", w, "no such function")
        return
    hs = T.items(it, len(T.sh.vids) + 2)
    places, bad = [], 0
    for k, h in enumerate(hs):
        l = T.local(h)
        p = T.call("Vertex::point", l)
        if p is None:
            c.unk("vertices", w, "no points")
            return
        i = coords(T, p, n)
        if i is None:
            c.decide(None if fuzzy(p, T) else False, "point", w, "vertex %d is at %s, which is no point of qhull's" % (k, show(T.deref(p), 3)[:100]))
            return
        places.append(i)
        x = T.call("Vertex::index", l)
        if x is not None and num(x) is not None and num(x) != k:
            c.bad("index", w, "vertex %d says that it is number %d" % (k, num(x)))
            bad = 1
    used = {v for f in T.sh.facets if not f[1] for v in f[2]}
    if len(set(places)) != len(places):
        c.bad("vertices", w, "a vertex is listed twice")
    elif not used <= set(places):
        c.bad("vertices", w, "a vertex that is used is not listed")
    elif not bad:
        c.ok("vertices", w, "%d vertices, each at its own point" % len(places))
    T.places = places


def fuzzy(v, T):
    v = T.deref(v)
    return not any(x.op == "qp" for x in subterms(v)) or any(x.op in ("app", "opq", "mu", "rec", "fold") for x in subterms(v))


def facets(c, T, w, n):
    hull = T.kind == "Hull"
    it = T.call("::facets" if hull else "::simplices", T.t)
    if it is None:
        return
    own = [f for f in T.sh.facets if not f[1]]
    hs = T.items(it, len(T.sh.facets) + 2)
    if len(hs) != len(own):
        c.bad("count", w, "%d of %d facets are listed" % (len(hs), len(own)))
        return
    c.ok("count", w, "%d of qhull's %d facets" % (len(hs), len(T.sh.facets)))
    cls = "Facet" if hull else "Simplex"
    rows = []
    for k, h in enumerate(hs):
        l = T.local(h)
        x = T.call(cls + "::index", l)
        if x is not None and num(x) is not None and num(x) != k:
            c.bad("index", w, "facet %d says that it is number %d" % (k, num(x)))
        v = T.call(cls + "::vertices", l)
        m = n if hull else n + 1
        vs = T.items(v, m + 1) if v is not None else None
        nb = T.call(cls + "::neighbors", l)
        ns = T.items(nb, m + 1) if nb is not None else None
        if hull:
            pl = [T.call("Facet::normal", l), T.call("Facet::offset", l)]
            if pl[0] is not None:
                pl[0] = [index(T.deref(pl[0]), I0(i)) for i in range(n)]
        else:
            x = [var("x", i) for i in range(n + 1)]
            arg = T.local(arr_(n + 1, x))
            pl = T.call("Simplex::plane_distance", l, arg)
        rows.append((vs, ns, pl))
    # which vertex and facet the handles stand for, case by case
    place = lambda h: num(h.a[3]) if h.op == "agg" and len(h.a) > 3 else None
    for k, (vs, ns, pl) in enumerate(rows):
        row(c, T, w, n, k, vs, ns, pl, rows, own, hull)


def arr_(n, xs):
    from eng import arr2
    return arr2(n, *xs)


def idxof(h):
    """the index term of a handle"""
    if h.op == "agg":
        xs = [x for x in h.a[2:] if x.op not in ("ref", "vr") and not (x.op == "agg" and x.a[0].endswith("PhantomData"))]
        return xs[0] if len(xs) == 1 else None
    return None


def row(c, T, w, n, k, vs, ns, pl, rows, own, hull):
    ww = "%s, facet %d" % (w, k)
    if vs is None:
        return
    m = n if hull else n + 1
    if len(vs) != m or ns is not None and len(ns) != m:
        c.bad("members", ww, "%d vertices and %s neighbours instead of %d" % (len(vs), len(ns) if ns is not None else "-", m))
        return
    terms = list(vs) + list(ns or [])
    atoms = assignments(terms)
    if len(atoms) > 10:
        c.unk("members", ww, "%d conditions" % len(atoms))
        return
    fnd = set()
    for bits in range(1 << len(atoms)):
        A = {a: bool(bits >> i & 1) for i, a in enumerate(atoms)}
        V = [idxof(resolve(v, A)) for v in vs]
        if any(x is None or num(x) is None for x in V):
            c.unk("members", ww, "a vertex is not known: %s" % show(resolve(vs[0], A), 4)[:120])
            return
        V = [num(x) for x in V]
        if any(not 0 <= x < len(T.places) for x in V):
            c.bad("members", ww, "lists a vertex that does not exist (number %d of %d)" % (max(V), len(T.places)))
            return
        P = [T.places[x] for x in V]
        fs = [f for f in own if sorted(f[2]) == sorted(P)]
        if not fs:
            c.bad("members", ww, "lists the points %s, which are no facet of qhull's" % P)
            return
        f = fs[0]
        fnd.add(own.index(f))
        if ns is None:
            continue
        Q = []
        for x in ns:
            x = resolve(x, A)
            if not hull:
                if x.op != "agg" or x.a[0].split("::")[-1] != "Option":
                    c.unk("neighbours", ww, show(x, 3)[:120])
                    return
                x = None if x.a[1] == 0 else x.a[2]
            Q.append(None if x is None else num(idxof(x)) if idxof(x) is not None else "?")
        if any(x == "?" for x in Q):
            c.unk("neighbours", ww, "a neighbour is not known")
            return
        for j, (p, qn) in enumerate(zip(P, Q)):
            g = T.sh.facets[f[3][f[2].index(p)]]      # qhull's neighbour opposite that vertex
            if g[1]:
                if qn is not None:
                    c.bad("neighbours", ww, "gives simplex %d as a neighbour that does not belong to the triangulation" % qn)
                    return
                continue
            if qn is None:
                c.bad("neighbours", ww, "a neighbour in the triangulation is reported as absent")
                return
            if not 0 <= qn < len(rows):
                c.bad("neighbours", ww, "neighbour %d is number %d of %d" % (j, qn, len(rows)))
                return
            gv = vertexset(T, rows[qn][0])
            if gv is None:
                c.unk("neighbours", ww, "vertices of the neighbour")
                return
            if gv != sorted(g[2]):
                c.bad("neighbours", ww, "neighbour %d is not the facet opposite vertex %d" % (j, j))
                return
    if len(fnd) != 1:
        c.unk("members", ww, "different facets in different cases")
        return
    f = own[fnd.pop()]
    c.ok("members", ww, "the vertices of the qhull facet")
    if ns is not None:
        c.ok("neighbours", ww, "opposite their vertices")
    plane(c, T, ww, n, T.sh.facets.index(f), pl, hull)
    if hull and n == 3:
        orient(c, T, ww, T.sh.facets.index(f), vs, atoms)


def vertexset(T, vs):
    """places of the vertices of a facet, in any case the same set"""
    xs = set()
    for v in vs:
        for l in leaves(v):
            i = idxof(l)
            if i is None:
                return None
            for y in leaves(i):
                if num(y) is None or not 0 <= num(y) < len(T.places):
                    return None
                xs.add(T.places[num(y)])
    return sorted(xs)


def plane(c, T, w, n, i, pl, hull):
    q = lambda k: mk("qn", T.q, I0(i), I0(k))
    o = mk("qo", T.q, I0(i))
    if hull:
        nrm, off = pl
        if nrm is None or off is None:
            return
        bad = [k for k in range(n) if nrm[k] is not q(k)]
        def known(t):
            p = poly.of(t)
            return p is not None and poly.atoms(p) <= {"qn", "qo", "qp"}
        known_bad = lambda t, own: known(t) and poly.of(t) != poly.of(own)
        if all(nrm[k] is q(k) or known(nrm[k]) and poly.of(nrm[k]) == poly.of(q(k)) for k in range(n)) and (
                off is o or known(off) and poly.of(off) == poly.of(o)):
            c.ok("plane", w, "its own normal and offset")
        elif any(known_bad(nrm[k], q(k)) for k in bad) or known_bad(off, o):
            c.bad("plane", w, "normal %s, offset %s instead of its own" % ([show(x, 2)[-12:] for x in nrm], show(off, 2)))
        else:
            c.unk("plane", w, show(off, 3)[:100])
    elif pl is not None:
        want = poly.of(o)
        for k in range(n + 1):
            want = poly.add(want, poly.mul(poly.of(q(k)), poly.of(var("x", k))))
        got = poly.of(pl)
        if got is None:
            c.unk("plane", w, show(pl, 4)[:120])
        elif got == want:
            c.ok("plane", w, "distance to its own plane")
        elif poly.atoms(got) <= {"qn", "qo", "v"}:
            c.bad("plane", w, "the distance to its plane is computed as %s" % show(pl, 5)[:150])
        else:
            c.unk("plane", w, show(pl, 4)[:120])


def orient(c, T, w, i, vs, atoms):
    """the vertices turn the way the normal points"""
    import itertools
    q = lambda k: poly.of(mk("qn", T.q, I0(i), I0(k)))
    P = lambda v, k: poly.of(mk("qp", T.q, I0(v), I0(k)))

    def det(vv):
        a = [poly.sub(P(vv[1], k), P(vv[0], k)) for k in range(3)]
        b = [poly.sub(P(vv[2], k), P(vv[0], k)) for k in range(3)]
        cr = [poly.sub(poly.mul(a[(k + 1) % 3], b[(k + 2) % 3]), poly.mul(a[(k + 2) % 3], b[(k + 1) % 3])) for k in range(3)]
        r = poly.of(const(0.0, "f64"))
        for k in range(3):
            r = poly.add(r, poly.mul(cr[k], q(k)))
        return r
    for bits in range(1 << len(atoms)):
        A = {a: bool(bits >> j & 1) for j, a in enumerate(atoms)}
        V = [T.places[num(idxof(resolve(v, A)))] for v in vs]
        D = det(V)
        # some condition of the case must say that this determinant is not negative
        says = None
        for a, val in A.items():
            s = sign(a, val, A)
            if s is None:
                continue
            p, rel = s              # p rel 0
            if p == D:
                says = rel
            elif p == poly.neg(D):
                says = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[rel]
            if says:
                break
        if says in (">", ">="):
            continue
        if says in ("<", "<="):
            c.bad("orientation", w, "the vertices turn against the normal when (p1-p0)x(p2-p0).n %s 0" % says)
            return
        if not atoms:
            c.bad("orientation", w, "the vertices are listed in qhull's order, whichever way the normal points")
            return
        c.unk("orientation", w, "no condition on the orientation was found")
        return
    c.ok("orientation", w, "the vertices turn around the normal")


def sign(a, val, A):
    """(polynomial, relation to zero) that a condition with that value states"""
    a = a
    if a.op == "op" and a.a[0] in ("f<", "f<=", "f>", "f>="):
        p = poly.of(resolve(poly_sub(a.a[1], a.a[2]), A))
        if p is None:
            return None
        rel = a.a[0][1:]
        if not val:
            rel = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}[rel]
        return p, rel
    return None


def poly_sub(x, y):
    return mk("op", "f-", x, y)


def run():
    c = Check("C07", "On abstract raw hulls and triangulations (concrete lists, ids, members and flags; unknown geometry) the value-flow terms of every handle of the array form are those of one qhull facet: its points, its plane, its neighbours opposite its vertices, absence exactly for upper facets; three-dimensional facets turn around their normals.")
    d = vbuild.mir(wasm=True)
    for b in sorted(d["bodies"], key=lambda b: b["name"]):
        m = re.match(r"^qhull_rs::(ConvexHull|Delaunay)::<nalgebra::Const<(\d+)>>::from_qhull_raw$", b["name"])
        if not m:
            continue
        n = int(m.group(2))
        for sh in (hull_shapes if m.group(1) == "ConvexHull" else tri_shapes)(n):
            check(c, d, b, sh)
            c.count("structures")
    c.assumptions.append("the constructors treat vertices and facets uniformly, so that the structures stand for larger ones; the raw accessors read what C25 says they read")
    return c.finish()
