"""C13: every output pixel belongs to the input pixel at the same place."""
from common import Check
import pipe
from pipe import *
from ints import Ints, differ


def queries(t, img):
    """coordinates (X, Y) of the pixels of the image that t reads"""
    s = set()
    for p in find(t, lambda x: x.op == "px" and x.a[0] is img):
        s.add((p.a[1], p.a[2]))
    return s


def groups(W, img):
    """triplet groups of the weight matrices: (variable, count, row, pixel X, pixel Y)"""
    cs = find(W, lambda x: x.op == "csr")
    r = []
    for c in cs:
        ri, ci, va = c.a[2:5]
        if not all(s.op == "seq" and s.a[0] is EMPTY and len(s.a) == 2 for s in (ri, ci, va)):
            raise Missing("weight triplets")
        nr, nc, nv = nest(ri.a[1]), nest(ci.a[1]), nest(va.a[1])
        if not (nr and nc and nv) or not len(nr[1]) == len(nc[1]) == len(nv[1]):
            raise Missing("weight triplets")
        # the same loop in the three sequences
        m = {}
        for q in (nc, nv):
            if len(q[0]) != len(nr[0]) or any(a[1] is not b[1] for a, b in zip(q[0], nr[0])):
                raise Missing("weight triplets")
        com = [var("grp", j) for j in range(len(nr[0]))]

        def ren(q):
            mm = {v: x for (v, n), x in zip(q[0], com)}
            return [subst(o.a[1], mm) for o in q[1]]
        rows, cols, vals = ren(nr), ren(nc), ren(nv)
        bounds = [n for v, n in nr[0]]
        r.append((c, list(zip(com, bounds)), rows, cols, vals))
    return r


def run():
    c = Check("C13", "the row of the weight matrix that an output pixel is computed from is the row whose triplets were computed "
              "for the input pixel with the same coordinates (normal forms of the index expressions); result sizes are the image's")

    def go():
        P = Pipe()
        img = P.app.img
        for i, wb in enumerate(P.winst()):
            one_(c, P, i, img, wb["name"].split("image_palette_recoloring::")[-1])
    pipe.run(go, c)
    return c.finish()


def one_(c, P, i, img, inst):
    W, H = mk("imgw", img), mk("imgh", img)
    N = Ints()
    try:
        st, w = P.weights(i)
    except Missing as e:
        c.unk("weights", inst, str(e))
        return
    c.count("weight computations")
    for f, recv, want in (("ImageWeights::width", "W", W), ("ImageWeights::height", "W", H), ("DecomposedImage::width", "D", W),
                          ("DecomposedImage::height", "D", H)):
        try:
            v = N(P.method(f, recv, [], i))
        except Missing as e:
            c.unk("size", f, str(e))
            continue
        size_(c, v, want, "size", f, img)
    try:
        gs = groups(w, img)
    except Missing as e:
        c.unk("rows", inst, str(e))
        return
    for name, get in (("reconstruct", P.rec_image), ("get_channel_grayscale", P.gray_image)):
        try:
            im = get(i)
        except Missing as e:
            c.unk("pixels", name, str(e))
            continue
        c.count("images")
        size_(c, N(im.w), W, "width", name, img)
        size_(c, N(im.h), H, "height", name, img)
        for k, v in enumerate(im.cs):
            pixel(c, im, v, gs, name + " component %d" % k, img, w)


def size_(c, v, want, kind, where, img):
    if v is want:
        c.ok(kind, where)
    elif v.op in ("imgw", "imgh") or num(v) is not None or differ(v, want, {}):
        c.bad(kind, where, "%s instead of %s" % (show(v, 4), show(want, 4)))
    else:
        c.unk(kind, where, show(v, 4)[:200])


def pixel(c, im, v, gs, where, img, w):
    csrs = {g[0]: g for g in gs}
    reads = find(v, lambda x: x.op == "idx" and x.a[0] in csrs and x.a[1].op == "agg" and len(x.a[1].a) == 4)
    if not reads:
        c.unk("pixel", where, "no access to the weight matrix found")
        return
    # outermost loops of the image give the position
    free = {k: n for k, n in im.ks}
    lo = {k: n for k, n in im.ks if n is not None}
    for r in {(x.a[0], x.a[1].a[2]) for x in reads}:
        m, R = r
        c.count("matrix row accesses")
        g = csrs[m]
        qs = set()
        for t in g[3] + g[4]:
            qs |= queries(t, img)
        com = dict(g[1])
        inner = {q for q in qs if not all(x in com for z in q for x in z.fv if x.op != "v" or x in com or x.a[0] == "grp")}
        qs = {q for q in qs if any(v in z.fv for z in q for v in com)}
        if len(qs) != 1:
            c.unk("pixel", where, "weights computed from %d pixels" % len(qs))
            continue
        (X, Y), = qs
        rows = set(g[2])
        if len(rows) != 1:
            # the slots of one pixel must go to one row
            c.bad("row", where, "triplets of one pixel are put in %d different rows" % len(rows))
            continue
        row = rows.pop()
        N = Ints({**lo, **com})
        R_, row_ = N(R), N(row)
        decided = False
        if len(com) == 1 and row_ is N(list(com)[0]):
            # row number = group number: the group of row R is R
            p = list(com)[0]
            xs, ys = N(subst(X, {p: R_})), N(subst(Y, {p: R_}))
            ox, oy = N(im.x), N(im.y)
            fr = free
            decided = True
        elif len(im.ks) == 1 and R_ is N(im.ks[0][0]):
            k = im.ks[0][0]
            ox, oy = N(subst(im.x, {k: row_})), N(subst(im.y, {k: row_}))
            xs, ys = N(X), N(Y)
            fr = com
            decided = True
        if not decided:
            c.unk("pixel", where, "row %s for output row %s" % (show(row_, 4), show(R_, 4)))
            continue
        if any(z not in fr and z.op == "bv" or z.op == "bv" and z not in fr for q in (xs, ys, ox, oy) for z in q.fv):
            c.unk("pixel", where, "index over an inner loop")
            continue
        for a, b, n in ((xs, ox, "x"), (ys, oy, "y")):
            if a is b:
                c.ok("pixel " + n, where, show(a, 5))
                continue
            d = differ(a, b, fr)
            if d:
                c.bad("pixel " + n, where, "output pixel at %s uses the weights of the pixel at %s (for example %s)" % (show(b, 5), show(a, 5), d))
            else:
                c.unk("pixel " + n, where, "%s against %s" % (show(a, 5), show(b, 5)))
