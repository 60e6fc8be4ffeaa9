"""Contracts for the raw qhull wrappers, for analysing what is built on them.

  nqv/nqf(q)        number of vertices/facets in qhull's lists      qvid/qfid(q, i)    their qhull ids
  qp(q, i, c)       coordinate of a vertex                          qn, qo(q, i)       normal and offset of a facet
  qfv/qfn(q, i, j)  vertex/neighbour of a facet (place in the list) qup(q, i)          upper Delaunay facet"""
import re
from terms import *
from eng import *
from models import I0
import geo, rawc
from geo import ntimes, small, handle, dim, fieldv

QV, QF = "QV", "QF"
C = {}


def raw(*names):
    def deco(f):
        for n in names:
            C[n] = f
        return f
    return deco


def hullof(v):
    return v


@raw("qhull_rs::RawHull::vertices", "qhull_rs::RawDelaunay::vertices", "qhull_rs::RawDelaunay::full_vertices")
def _(cx):
    q = handle(cx)
    return ntimes(mk("nqv", q), ("qv", q), lambda i: agg(QV, 0, q, i))


@raw("qhull_rs::RawHull::facets", "qhull_rs::RawDelaunay::simplices", "qhull_rs::RawDelaunay::full_simplices")
def _(cx):
    q = handle(cx)
    return ntimes(mk("nqf", q), ("qf", q), lambda i: agg(QF, 0, q, i))


def kind(cx):
    """whether a handle belongs to a triangulation"""
    return cx.I.rawkind


def width(cx):
    """vertices of a facet"""
    n = dim(cx)
    return None if n is None else n + (1 if kind(cx) == "Delaunay" else 0)


@raw("qhull_rs::raw::Facet::vertices")
def _(cx):
    f, n = handle(cx), width(cx)
    q, i = fieldv(f, 0), fieldv(f, 1)
    return small(n, lambda j: agg(QV, 0, q, mk("qfv", q, i, j)))


@raw("qhull_rs::raw::Facet::neighbors")
def _(cx):
    f, n = handle(cx), width(cx)
    q, i = fieldv(f, 0), fieldv(f, 1)
    return small(n, lambda j: agg(QF, 0, q, mk("qfn", q, i, j)))


@raw("qhull_rs::raw::Facet::id")
def _(cx):
    f = handle(cx)
    return mk("qfid", fieldv(f, 0), fieldv(f, 1))


@raw("qhull_rs::raw::Vertex::id")
def _(cx):
    f = handle(cx)
    return mk("qvid", fieldv(f, 0), fieldv(f, 1))


@raw("qhull_rs::raw::Facet::offset")
def _(cx):
    f = handle(cx)
    return mk("qo", fieldv(f, 0), fieldv(f, 1))


@raw("qhull_rs::raw::Facet::normal")
def _(cx):
    f, n = handle(cx), dim(cx)
    q, i = fieldv(f, 0), fieldv(f, 1)
    return vr(arr2(n + 1, *[mk("qn", q, i, I0(c)) for c in range(n + 1)]))


@raw("qhull_rs::raw::Vertex::point")
def _(cx):
    f, n = handle(cx), dim(cx)
    q, i = fieldv(f, 0), fieldv(f, 1)
    return vr(arr2(n, *[mk("qp", q, i, I0(c)) for c in range(n)]))


@raw("qhull_rs::raw::Facet::is_upper_delaunay")
def _(cx):
    f = handle(cx)
    return lit(mk("qup", fieldv(f, 0), fieldv(f, 1)))


for _n in ("last_low", "last_high", "last_newhigh"):
    C["qhull_rs::RawDelaunay::" + _n] = (lambda n: lambda cx: mk("q" + n, handle(cx)))(_n)


for _k in ("FacetListIterator<'a, N>", "VertexListIterator<'a, N>", "SetIter<'a, T>"):
    C["<qhull_rs::raw::%s as std::iter::Iterator>::next" % _k] = geo.MODELS["std::iter::Iterator::next"]


def table(dump, b, q=None):
    """the array form made from a raw hull or triangulation"""
    I = Interp(dump, dict(geo.MODELS))
    I.contracts = dict(C)
    I.rawkind = "Delaunay" if "Delaunay" in b["name"] else "Hull"
    st = St()
    q = q or var("q", b["name"])
    r = I.run(b, [q], st, mk("fr", "raw", b["id"]))
    return I, st, q, r
