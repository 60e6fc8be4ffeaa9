"""The public interface of the hull and triangulation layer (qhull_rs) as seen by the code that uses it.

The application is analysed against these contracts instead of qhull_rs's own bodies; that the bodies keep them is what
the C07, C08 and C09 checks decide. Terms:
  hull(n, points)            convex hull of a sequence of n-dimensional points
  tri(n, points)             Delaunay triangulation
  nv/nf(h)                   number of vertices/facets
  pc(h, i, c)                coordinate c of vertex i
  fv(h, f, j) fnb(h, f, j)   vertex/neighbour number of facet f
  sv(t, s, j)                vertex number of simplex s
  found(t, p, eps) fs(..)    outcome of a simplex search, bc(t, p, s, j) barycentric coordinates of p in simplex s"""
import re
from terms import *
from eng import *
from models import M, D, it, I0, ZERO, collect, mval, mptr, arr2 as _a2, desc, toiter, guarded, model
import models

HV, HF, TV, TS, SS = "HV", "HF", "TV", "TS", "SS"


def constn(I, ty):
    """the dimension in the type arguments of a hull, triangulation or handle type"""
    t = models.tyof(I, ty) if isinstance(ty, int) else ty
    if t is None:
        return None
    m = re.search(r"Const<(\d+)>", t["s"])
    return int(m.group(1)) if m else None


def dim(cx, i=0):
    return constn(cx.I, cx.tys[i]) if cx.tys and cx.tys[i] is not None else None


def retdim(cx):
    return constn(cx.I, cx.retty) if cx.retty is not None else None


def handle(cx, i=0):
    v = cx.args[i]
    while v.op in ("ref", "vr"):
        v = cx.load(v)
    return v


def points(cx, i=0):
    v = handle(cx, i)
    return v


def ntimes(n, key, f):
    v = var("n", *key)
    return it(D("n", v, n, f(v)))


def small(n, f):
    """iterator over n elements known one by one"""
    return it(D("srcv", arr2(n, *[f(I0(j)) for j in range(n)])))


def lift(v, f):
    return mapl(v, f)


def part(i):
    """field i of a handle value"""
    def f(x):
        return x.a[2 + i] if x.op == "agg" else mk("hf", x, i)
    return f


def fieldv(v, i):
    return mapl(v, part(i))


C = {}


def contract(*names):
    def d(f):
        for n in names:
            C[n] = f
        return f
    return d


def pt(kind, h, i, n):
    return vr(arr2(n, *[mk("pc", h, i, I0(c)) for c in range(n)]))


# ---------------------------------------------------------------- convex hulls
@contract("qhull_rs::ConvexHull::from_arrays")
def _(cx):
    n = retdim(cx)
    return mk("hull", I0(n), points(cx)) if n else NotImplemented


def hull_collect(cx, d, ty):
    n = constn(cx.I, ty)
    return mk("hull", I0(n), collect(cx, d))


@contract("<qhull_rs::ConvexHull<N> as std::iter::FromIterator<nalgebra::Matrix<f64, N, nalgebra::Const<1>, <nalgebra::DefaultAllocator as nalgebra::allocator::Allocator<f64, N>>::Buffer>>>::from_iter")
def _(cx):
    n = retdim(cx)
    return mk("hull", I0(n), collect(cx, desc(cx)))


@contract("qhull_rs::ConvexHull::vertices")
def _(cx):
    h = handle(cx)
    return ntimes(mk("nv", h), ("hv", h), lambda i: agg(HV, 0, h, i))


@contract("qhull_rs::ConvexHull::facets")
def _(cx):
    h = handle(cx)
    return ntimes(mk("nf", h), ("hf", h), lambda i: agg(HF, 0, h, i))


def point_(cx):
    v = handle(cx)
    n = dim(cx)
    if n is None:
        return NotImplemented
    return mapl(v, lambda x: pt(0, part(0)(x), part(1)(x), n))


def index_(cx):
    return fieldv(handle(cx), 1)


C["qhull_rs::convex_hull::Vertex::point"] = point_
C["qhull_rs::delaunay::Vertex::point"] = point_
for _n in ("convex_hull::Vertex", "convex_hull::Facet", "delaunay::Vertex", "delaunay::Simplex"):
    C["qhull_rs::%s::index" % _n] = index_


@contract("qhull_rs::convex_hull::Facet::vertices", "qhull_rs::convex_hull::Facet::neighbors")
def _(cx):
    f, n = handle(cx), dim(cx)
    if n is None:
        return NotImplemented
    h, i = fieldv(f, 0), fieldv(f, 1)
    if cx.last == "vertices":
        return small(n, lambda j: agg(HV, 0, h, mk("fv", h, i, j)))
    return small(n, lambda j: agg(HF, 0, h, mk("fnb", h, i, j)))


@contract("qhull_rs::convex_hull::Facet::normal")
def _(cx):
    f, n = handle(cx), dim(cx)
    h, i = fieldv(f, 0), fieldv(f, 1)
    return vr(arr2(n, *[mk("nrm", h, i, I0(c)) for c in range(n)]))


@contract("qhull_rs::convex_hull::Facet::offset")
def _(cx):
    f = handle(cx)
    return mk("offs", fieldv(f, 0), fieldv(f, 1))


def eq_(cx):
    a, b = handle(cx, 0), handle(cx, 1)
    return And(eq(fieldv(a, 0), fieldv(b, 0)), eq(fieldv(a, 1), fieldv(b, 1)))


for _n in ("convex_hull::Vertex", "convex_hull::Facet", "delaunay::Vertex", "delaunay::Simplex"):
    C["<qhull_rs::%s<'a, N> as std::cmp::PartialEq>::eq" % _n] = eq_
    C["<qhull_rs::%s<'a, N> as std::clone::Clone>::clone" % _n] = handle


# ---------------------------------------------------------------- triangulations
@contract("qhull_rs::Delaunay::from_arrays")
def _(cx):
    n = retdim(cx)
    return mk("tri", I0(n), points(cx)) if n else NotImplemented


@contract("qhull_rs::Delaunay::vertices")
def _(cx):
    h = handle(cx)
    return ntimes(mk("nv", h), ("tv", h), lambda i: agg(TV, 0, h, i))


@contract("qhull_rs::Delaunay::simplices")
def _(cx):
    h = handle(cx)
    return ntimes(mk("ns", h), ("ts", h), lambda i: agg(TS, 0, h, i))


@contract("qhull_rs::delaunay::Simplex::vertices")
def _(cx):
    s, n = handle(cx), dim(cx)
    if n is None:
        return NotImplemented
    t, i = fieldv(s, 0), fieldv(s, 1)
    return small(n + 1, lambda j: agg(TV, 0, t, mk("sv", t, i, j)))


@contract("qhull_rs::delaunay::Simplex::neighbors")
def _(cx):
    s, n = handle(cx), dim(cx)
    t, i = fieldv(s, 0), fieldv(s, 1)
    return small(n + 1, lambda j: ite(lit(mk("hasnb", t, i, j)), some(agg(TS, 0, t, mk("snb", t, i, j))), NONE))


@contract("qhull_rs::Delaunay::simplex_searcher", "qhull_rs::delaunay::SimplexSearcher::new")
def _(cx):
    return agg(SS, 0, handle(cx), const(2.220446049250313e-16, "f64"))


@contract("qhull_rs::delaunay::SimplexSearcher::eps")
def _(cx):
    return fieldv(handle(cx), 1)


@contract("qhull_rs::delaunay::SimplexSearcher::set_eps")
def _(cx):
    cx.I.store(cx.st, cx.I.sub(cx.args[0], pf(1)), cx.args[1])
    return cx.args[0]


@contract("qhull_rs::delaunay::SimplexSearcher::set_bruteforce", "qhull_rs::delaunay::SimplexSearcher::clear_start_hint")
def _(cx):
    return cx.args[0]


@contract("qhull_rs::delaunay::SimplexSearcher::find_simplex", "qhull_rs::delaunay::SimplexSearcher::find_simplex_mut")
def _(cx):
    s = handle(cx)
    n = dim(cx)
    t, eps = fieldv(s, 0), fieldv(s, 1)
    p = mval(cx, 1)
    f = lit(mk("found", t, p, eps))
    x = mk("fs", t, p, eps)
    if cx.last == "find_simplex_mut":
        cx.I.store(cx.st, mptr(cx.I, cx.st, cx.args[2]), arr2(n + 1, *[ite(f, mk("bc", t, p, x, I0(j)), mk("junk", t, p, eps, I0(j))) for j in range(n + 1)]))
    return ite(f, some(agg(TS, 0, t, x)), NONE)


@contract("qhull_rs::delaunay::SimplexSearcher::barycentric_coords")
def _(cx):
    s, n = handle(cx), dim(cx)
    t = fieldv(s, 0)
    x = fieldv(handle(cx, 1), 1)
    return arr2(n + 1, *[mk("bc", t, mval(cx, 2), x, I0(j)) for j in range(n + 1)])


@contract("qhull_rs::delaunay::SimplexSearcher::barycentric_coords_mut")
def _(cx):
    s, n = handle(cx), dim(cx)
    t = fieldv(s, 0)
    x = fieldv(handle(cx, 1), 1)
    cx.I.store(cx.st, mptr(cx.I, cx.st, cx.args[3]), arr2(n + 1, *[mk("bc", t, mval(cx, 2), x, I0(j)) for j in range(n + 1)]))
    return UNIT


MODELS = dict(M)
MODELS["!collect:qhull_rs::ConvexHull"] = hull_collect


def interp(dump):
    I = Interp(dump, MODELS)
    I.contracts = dict(C)
    return I


# ---------------------------------------------------------------- the public operations of the application crate
APP = "image_palette_recoloring::"


class App:
    """The operations composed as a user composes them: weights of an image, a decomposition, its outputs; a palette."""

    def __init__(self, dump):
        self.I = interp(dump)
        self.d = dump
        self.img = var("img")
        self.pal = var("palette")
        self.pal2 = var("newpalette")
        self.chan = var("channel")
        self.frs = 0
        self._w = {}

    def bodies(self, name):
        """the instances of a public function: {type of the image container: body}"""
        r = [b for b in self.d["bodies"] if normkey(b["name"]) == APP + name and "{closure" not in b["name"]]
        return sorted(r, key=lambda b: b["name"])

    def run(self, b, args, st):
        self.frs += 1
        return self.I.run(b, args, st, mk("fr", "app", self.frs))

    def weights(self, b):
        k = b["id"]
        if k not in self._w:
            st = St()
            v = self.run(b, [vr(self.img)], st)
            self._w[k] = (st, v)
        st, v = self._w[k]
        return st.clone(), v

    def decomposed(self, wb, db=None):
        st, w = self.weights(wb)
        db = db or self.bodies("DecomposedImage::new")[0]
        return st, w, self.run(db, [vr(w), vr(self.pal)], st)
