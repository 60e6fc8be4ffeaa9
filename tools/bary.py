"""The barycentric transform of qhull_rs analysed from its own bodies: coordinates of a point in a simplex."""
import eng, models, vbuild
from terms import *
from eng import arr2, vr
from pipe import Missing

T = "qhull_rs::delaunay::BarycentricTransformation::"


class Bary:
    """coords(how): the coordinate terms for the simplex s of a triangulation $tri and the point P.p"""

    def __init__(self, d, dim):
        self.d, self.dim = d, dim
        self.I = eng.Interp(d, models.M)
        self.I.contracts = {}
        self.tri, self.s = var("tri"), var("s")
        self.p = arr2(dim, *[var("P", "p", c) for c in range(dim)])
        self.n = 0

    def body(self, name, prefix=T):
        k = prefix + name
        bs = [b for b in self.d["bodies"] if eng.normkey(b["name"]) == k and "Const<%d>" % self.dim in b["name"]]
        if not bs:
            raise Missing("no function %s for dimension %d" % (k, self.dim))
        return bs[0]

    def call(self, b, args, st):
        self.n += 1
        try:
            return self.I.run(b, args, st, mk("fr", "bary", self.n))
        except (eng.Abort, RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError) as e:
            raise Missing("%s: %s" % (type(e).__name__, str(e)[:200]))

    def new(self, st):
        b = self.body("new")
        sim = agg("qhull_rs::delaunay::Simplex", 0, *self.simplex(b))
        return self.call(b, [sim], st)

    def simplex(self, b):
        """fields of the simplex handle in declaration order"""
        t = self.d["types"][b["locals"][1]]
        r = []
        for name, ty in t["v"][0]["f"]:
            k = self.d["types"][ty]["k"]
            r.append(vr(self.tri) if k in ("ref", "ptr") else self.s)
        return r

    def solve(self):
        st = eng.St()
        tr = self.new(st)
        loc = mk("loc", "bary.out")
        st.mem[loc] = arr2(self.dim + 1, *[var("old", c) for c in range(self.dim + 1)])
        self.call(self.body("solve"), [vr(tr), self.p, eng.ref(loc)], st)
        v = self.I.load(st, eng.ref(loc))
        if not eng.is_arr(v) or len(v.a) != 3 + self.dim:
            raise Missing("coordinates " + show(v, 3)[:100])
        return tr, list(v.a[2:])

    # ------------------------------------------------ what the terms are about
    def vertex(self, t):
        """(vertex number term, axis) of a coordinate read of the triangulation, or None"""
        if t.op == "idx" and t.a[0].op == "idx" and num(t.a[1]) is not None:
            b = t.a[0].a[0]
            if b.op == "f" and b.a[0] is self.tri:
                return t.a[0].a[1], int(num(t.a[1]))
        return None

    def seed(self, t):
        if t.op == "v" and t.a[0] == "P":
            return 1, t.a[2]
        v = self.vertex(t)
        if v is not None:
            return 1, v[1]
        return None
