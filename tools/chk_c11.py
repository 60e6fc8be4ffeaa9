"""C11: red, green and blue never mix."""
from common import Check
import pipe
from pipe import *
from canon import Canon, unsorted, column, part, linexpr
from dims import Dims

ROT = (1, 2, 0)
SWAP = (1, 0, 2)


def run():
    c = Check("C11", "renaming the colour components of all inputs renames the components of every result in the same way (equality of the "
              "normal forms of the value-flow terms), and each component of a result is built from the same component of pixels, hull "
              "vertices, palette entries and linear-program variables")

    def go():
        P = Pipe()
        for i, b in enumerate(P.winst()):
            inst = b["name"].split("::", 1)[-1]
            try:
                im = P.rec_image(i)
                if len(im.cs) != 3:
                    raise Missing("%d components" % len(im.cs))
            except Missing as e:
                c.unk("reconstruct", inst, str(e))
                continue
            c.count("results")
            equi(c, "DecomposedImage::reconstruct", inst, im.cs, (ROT, SWAP), lambda t: t)
            lanes(c, "DecomposedImage::reconstruct", inst, im.cs, P.app.pal2)
            try:
                g = P.gray_image(i).cs
            except Missing as e:
                c.unk("grayscale", inst, str(e))
                continue
            c.count("results")
            equi(c, "DecomposedImage::get_channel_grayscale", inst, g, (ROT, SWAP), lambda t: t)
        for i, b in enumerate(P.pinst()):
            inst = b["name"].split("::", 1)[-1]
            try:
                cs = P.pal_colour(i)
                if len(cs) != 3:
                    raise Missing("%d components" % len(cs))
            except Missing as e:
                c.unk("compute_palette", inst, str(e))
                continue
            c.count("results")
            equi(c, "compute_palette", inst, cs, (ROT,), unsorted)
            palette(c, "compute_palette", inst, cs)
    pipe.run(go, c)
    return c.finish()


def equi(c, name, inst, cs, perms, prep):
    K0 = Canon()
    cs = [prep(x) for x in cs]
    base = [K0(x) for x in cs]
    er = None
    for p in perms:
        K = Canon(perm=p)
        got = [K(x) for x in cs]
        # lane k of the renamed program is lane p[k] of the original one
        q = p if len(cs) == 3 else (0,)
        wrong = [k for k in range(len(cs)) if got[k] is not base[q[k]]]
        where = "%s under %s" % (name, "rotation" if p == ROT else "exchange")
        if not wrong:
            c.ok("renaming", where + " for " + inst)
            continue
        if er is None:
            K1, K2 = Canon(erase=True), Canon(perm=p, erase=True)
            er = [K1(x) for x in cs], [K2(x) for x in cs]
        op = K.opaque | K0.opaque
        if not op and len(set(er[0])) == 1:
            c.bad("renaming", where, "component %s of the result does not follow the renaming of the colour components" % wrong)
        else:
            c.unk("renaming", where + " for " + inst, "the normal forms differ (%s)" % sorted(op)[:3])


def reads(t, v):
    """constant component numbers with which the colours in v are read"""
    r = set()
    for x in find(t, lambda x: x.op == "idx" and num(x.a[1]) is not None):
        b = x.a[0]
        if b.op == "f" and b.a[1] == 0 and b.a[0].op == "idx" and b.a[0].a[0] is v:
            r.add(int(num(x.a[1])))
    return r


def lanes(c, name, inst, cs, v):
    for k, t in enumerate(cs):
        s = reads(t, v)
        if s == {k}:
            c.ok("component", "%s component %d for %s" % (name, k, inst))
        elif s - {k}:
            c.bad("component", "%s component %d" % (name, k), "is computed from component %s of the palette" % sorted(s - {k}))
        else:
            c.unk("component", "%s component %d for %s" % (name, k, inst), "no palette component found")


class Mix(Exception):
    pass


class Lane:
    """component k of a value: True when it is built from component k only; Mix when another one enters"""

    def __init__(self):
        self.memo = {}
        self.lp = {}
        self.why = set()

    def ok(self, t, k):
        r = self.memo.get((t, k))
        if r is None:
            self.memo[(t, k)] = True        # a loop's own state: by induction
            r = self.memo[(t, k)] = self._ok(t, k)
        return r

    def all(self, xs, k):
        rs = [self.ok(x, k) for x in xs]
        return all(rs)

    def _ok(self, t, k):
        o, a = t.op, t.a
        if o == "px":
            n = a[3] if isinstance(a[3], int) else num(a[3])
            if n is None:
                return self.no("px")
            if int(n) != k:
                raise Mix("component %d of a pixel enters component %d" % (n, k))
            return True
        if o == "pc":
            if num(a[2]) is None:
                return self.no("pc")
            if int(num(a[2])) != k:
                raise Mix("component %d of a hull vertex enters component %d" % (int(num(a[2])), k))
            return self.hull(a[0], k)
        if o == "ite":
            return self.all(leaves(t), k)
        if o == "op":
            return self.all([x for x in a[1:]], k)
        if o == "cast":
            return self.ok(a[2], k)
        if o in ("c",):
            return True
        if o == "lpval":
            return self.lpvar(a[0], a[1], k)
        if o in ("v", "bv"):
            return True
        return self.no(o)

    def no(self, o):
        self.why.add(o)
        return False

    def hull(self, h, k):
        key = ("hull", h, k)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = True
        r = self.memo[key] = self._hull(h, k)
        return r

    def _hull(self, h, k):
        if h.op == "ite":
            return all([self.hull(x, k) for x in leaves(h)])
        if h.op in ("bv", "v"):
            return True
        if h.op == "fold":
            n = h.a[0]
            return all([self.hull(x, k) for x in h.a[2 + n:]])
        if h.op == "hull":
            col = column(h.a[1], k)
            if col is None:
                return self.no("points of a hull")
            es = []
            seqelems(col, es)
            return self.all(es, k)
        return self.no("hull " + h.op)

    def lpvar(self, p, v, k):
        if p.op == "ite":
            return all([self.lpvar(x, v, k) for x in leaves(p)])
        l = self.lpmap(p)
        if l is None:
            return self.no("linear program")
        if v not in l or l[v] is None:
            return self.no("variable of a linear program")
        if l[v] != k:
            raise Mix("the unknown that stands for component %d of the new vertex is used as component %d" % (l[v], k))
        return True

    def lpmap(self, p):
        """{variable: component it stands for}: in a constraint on a point x, moving all points along an axis moves the bound by the
        coefficient of that axis' unknown"""
        if p in self.lp:
            return self.lp[p]
        self.lp[p] = None
        if p.op != "agg" or p.a[0] != "LP":
            return None
        cons = []
        part(p.a[4], None, cons)
        es = [linexpr(x.a[1]) for x in cons]
        if not es or any(e is None for e in es):
            return None
        D = Dims(lambda t: (1, int(num(t.a[2]))) if t.op == "pc" and num(t.a[2]) is not None else None)
        r = {}
        for v in {v for e in es for v in e if v is not None}:
            cand = None
            for e in es:
                # linear part and constant: coefficient * x .. + const <= 0 or the like
                rate = D.d(e.get(None, const(0.0, "f64")))
                co = e.get(v, const(0.0, "f64"))
                s = set()
                for c in range(3):
                    if rate[c] is None:
                        continue
                    if any(all(D.zero(x) for x in leaves(fop(op, rate[c], co))) for op in ("f+", "f-")):
                        s.add(c)
                cand = s if cand is None else cand & s
            r[v] = cand.pop() if cand and len(cand) == 1 else None
        self.lp[p] = r
        return r


def seqelems(t, out):
    if t.op == "seq":
        for x in t.a:
            seqelems(x, out)
    elif t.op == "rep":
        for x in t.a[2 + t.a[0]:]:
            seqelems(x, out)
    elif t.op == "one":
        out.append(t.a[1])
    elif t.op == "ite":
        for x in leaves(t):
            seqelems(x, out)


def palette(c, name, inst, cs):
    for k, t in enumerate(cs):
        L = Lane()
        try:
            if L.ok(t, k):
                c.ok("component", "%s component %d for %s" % (name, k, inst))
                c.count("linear programs", len(L.lp))
            else:
                c.unk("component", "%s component %d for %s" % (name, k, inst), "%s" % sorted(L.why)[:4])
        except Mix as e:
            c.bad("component", "%s component %d" % (name, k), str(e))
