"""C17: geometry does not depend on the choice of origin or unit."""
from common import Check
import vbuild, pipe, eng, models
from pipe import *
from dims import *
from bary import Bary

TRI = "image_palette_recoloring::triangle_distance::"
PAL = "image_palette_recoloring::palette::"


def run():
    c = Check("C17", "forward derivative of every value and every deciding comparison along a common translation of the points (identically "
              "zero, or one along the axis for closest points), and homogeneity of both in the unit of length, on the value-flow term of "
              "each geometric function")

    def go():
        d = vbuild.mir()
        fixed(c, d)
        bary(c, d)
    pipe.run(go, c)
    return c.finish()


def seed(t):
    if t.op == "v" and t.a[0] == "P" and len(t.a) == 3:
        return 1, t.a[2]
    return None


def vec(n, k=3):
    return vr(arr2(k, *[var("P", n, c) for c in range(k)]))


def bodies(d, n):
    return [b for b in d["bodies"] if eng.normkey(b["name"]) == n]


def judge(c, where, outs, n=3, seed=seed):
    """outs: [(name, term, wanted degree, axis or None)]"""
    D = Dims(seed, n)
    for name, t, deg, axis in outs:
        c.count("results")
        for x in leaves(t):
            c.count("result cases")
        # translation
        v = [verdict(D, leaf, axis, i) for leaf in leaves(t) for i in range(n)]
        w = "%s %s" % (where, name)
        if any(x is False for x in v):
            c.bad("translation", w, "a case of the result %s" % ("changes when all points are moved" if axis is None else
                                                                  "does not move with the points"))
        elif any(x is None for x in v):
            c.unk("translation", w, "%s" % sorted(D.unknown)[:4])
        else:
            c.ok("translation", w)
        D.mixed = []
        ds = {D.deg(leaf) for leaf in leaves(t)} - {ANY}
        if D.mixed:
            m, k = D.mixed[0]
            c.bad("unit", w, "combines quantities of degree %s: %s" % (k, show(m, 3)[:200]))
        elif None in ds:
            c.unk("unit", w, "%s" % sorted(D.unknown)[:4])
        else:
            bad = [x for x in ds if x != deg]
            if bad:
                c.bad("unit", w, "a case scales with power %s instead of %s" % (bad[0], deg))
            else:
                c.ok("unit", w, "degree %s" % deg)
    # comparisons that choose between cases
    at = []
    for name, t, deg, axis in outs:
        for x in (atoms(t) if t.op == "ite" else []):
            if x.op == "op" and x.a[0] in ("f<", "f<=", "f==") and x not in at:
                at.append(x)
    res = {}
    for x in at:
        c.count("comparisons")
        e = fop("f-", x.a[2], x.a[1])
        vs = [D.isinv(l) for l in leaves(e)]
        D.mixed = []
        g = D.same(x, [x.a[1], x.a[2]])
        if any(v is False for v in vs):
            res.setdefault("translation", []).append((False, x))
        elif any(v is None for v in vs):
            res.setdefault("translation", []).append((None, x))
        if D.mixed:
            res.setdefault("unit", []).append((False, x))
        elif g is None:
            res.setdefault("unit", []).append((None, x))
    for kind in ("translation", "unit"):
        r = res.get(kind, [])
        b = [x for v, x in r if v is False]
        if b:
            c.bad(kind, where + " comparisons", "%d comparisons depend on the %s, for example %s" % (
                len(b), "origin" if kind == "translation" else "unit", show(b[0], 5)[:300]))
        elif r:
            c.unk(kind, where + " comparisons", show(r[0][1], 4)[:200])
        else:
            c.ok(kind, where + " comparisons", "%d comparisons" % len(at))


def verdict(D, t, axis, i):
    x = D.d(t)[i]
    if x is None:
        return None
    if axis == i:
        x = fop("f-", x, ONE)
    return D.zero(x)


def one(c, d, I, name, f):
    bs = bodies(d, name)
    if not bs:
        c.unk("function", name, "not found")
        return
    try:
        b = bs[0]
        args = [vec(n) for n in ("p", "a", "b", "c", "e", "g")[:b["argc"]]]
        r = I.run(b, args, eng.St(), mk("fr", "c17", name))
        outs = f(r)
    except (eng.Abort, Missing, RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
        c.unk("function", name, "%s: %s" % (type(e).__name__, str(e)[:200]))
        return
    judge(c, name.split("::")[-1], outs)


def fixed(c, d):
    I = eng.Interp(d, models.M)
    I.contracts = {}

    def closest(r):
        r = mapl(r, lambda x: x.a[0] if x.op == "vr" else x)
        cs = comps(r)
        if cs is None or len(cs) != 3:
            raise Missing("closest point " + show(r, 3)[:100])
        return [("component %d" % i, x, 1, i) for i, x in enumerate(cs)]
    one(c, d, I, TRI + "triangle_closest_point", closest)
    one(c, d, I, TRI + "triangle_distance_sqr", lambda r: [("value", r, 2, None)])
    one(c, d, I, PAL + "tetrahedron_volume", lambda r: [("value", r, 3, None)])


def bary(c, d):
    for n in (3, 5):
        where = "barycentric coordinates in %d dimensions" % n
        try:
            B = Bary(d, n)
            tr, cs = B.solve()
        except Missing as e:
            c.unk("function", where, str(e))
            continue
        # the case where the transform could be computed
        cs = [valid(x) for x in cs]
        judge(c, where, [("coordinate %d" % i, x, 0, None) for i, x in enumerate(cs)], n, B.seed)


def valid(x):
    """the cases whose transform could be computed"""
    ls = [l for l in leaves(x) if not find(l, lambda y: y.op == "c" and y.a[1] == "nan")]
    if not ls:
        return x
    return ls[0] if len(ls) == 1 else mapl(x, lambda l: l if l in ls else BOT)
