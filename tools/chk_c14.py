"""C14: weights stay attached to the vertex and palette colour they belong to."""
from common import Check
import pipe
from pipe import *
from canon import Canon, column, rewrite
from chk_c13 import groups, queries

OPAQUE = {"app", "lost", "pending", "rec", "elem", "bot", "mu", "rounds"}


def opaque(*ts):
    return sorted({x.op for t in ts for x in find(t, lambda q: q.op in OPAQUE)})


def pairs_(a, b):
    """the pairs of values that two terms take together"""
    return leaves(map2(a, b, lambda x, y: mk("pr", x, y)))


def norm_pixel(t, img):
    """t as a function of the coordinates of the pixel it reads, or None when it reads several"""
    q = queries(t, img)
    if len(q) != 1:
        return None
    (X, Y), = q
    x, y = var("X"), var("Y")

    def f(z):
        return x if z is X else y if z is Y else z
    # bottom-up would rewrite inside X first, so go top-down
    memo = {}

    def go(z):
        if z is X:
            return x
        if z is Y:
            return y
        r = memo.get(z)
        if r is None:
            na = tuple([go(w) if type(w) is T else w for w in z.a])
            r = memo[z] = z if all(p is q for p, q in zip(na, z.a)) else rebuild(z.op, na)
        return r
    return go(t)


def formula(points, c, img):
    """coordinate c of the points of a hull or triangulation as a function of a pixel: follows hulls of hull vertices"""
    for _ in range(4):
        s = column(points, c)
        if s is None or s.op != "seq" or s.a[0] is not EMPTY or len(s.a) != 2:
            return None
        r = nest(s.a[1])
        if r is None or len(r[1]) != 1 or r[1][0].op != "one" or r[1][0].a[0] is not TRUE:
            return None
        e = r[1][0].a[1]
        if e.op == "pc" and e.a[0].op == "hull" and num(e.a[2]) is not None:
            points, c = e.a[0].a[1], int(num(e.a[2]))
            continue
        return norm_pixel(e, img)
    return None


def run():
    c = Check("C14", "matching of index spaces along the value flow: (column, value) of each weight, rows of the palette matrix "
              "against triangulation vertices, (channel, value) of each palette weight against the matrix column of its vertex, "
              "channel against palette position")

    def go():
        P = Pipe()
        for i, wb in enumerate(P.winst()):
            one_(c, P, i, wb["name"].split("image_palette_recoloring::")[-1])
    pipe.run(go, c)
    return c.finish()


def one_(c, P, i, inst):
    img = P.app.img
    try:
        st, w = P.weights(i)
        gs = groups(w, img)
    except Missing as e:
        c.unk("weights", inst, str(e))
        return
    K = Canon()
    tris = set()
    for m, com, rows, cols, vals in gs:
        for j, (a, b) in enumerate(zip(cols, vals)):
            slot = "ImageWeights::new slot %d" % j
            for p in pairs_(a, b):
                x, y = p.a
                c.count("weights")
                if x.op in ("sv",) and y.op == "bc":
                    tris.add(x.a[0])
                    if x.a[0] is not y.a[0] or x.a[1] is not y.a[2]:
                        c.bad("weight", slot, "vertex of simplex %s with a coordinate in simplex %s" % (show(x.a[1], 3), show(y.a[2], 3)))
                    elif x.a[2] is not y.a[3]:
                        c.bad("weight", slot, "vertex %s of the simplex gets the coordinate of vertex %s" % (show(x.a[2]), show(y.a[3])))
                    else:
                        c.ok("weight", slot)
                    s = x.a[1]
                    if s.op == "fs":
                        if s.a[1] is y.a[1]:
                            c.ok("simplex", slot)
                        else:
                            c.bad("simplex", slot, "the simplex was searched for %s but the coordinates are those of %s" % (show(s.a[1], 4), show(y.a[1], 4)))
                    query(c, y.a[1], s, x.a[0], img, K, slot)
                elif y.op == "junk":
                    c.bad("weight", slot, "coordinates left by a failed search are used")
                elif x.op == "sv" or y.op == "bc":
                    if opaque(x, y):
                        c.unk("weight", slot, show(p, 3)[:200])
                    else:
                        c.bad("weight", slot, "column %s with value %s" % (show(x, 3)[:150], show(y, 3)[:150]))
                else:
                    c.unk("weight", slot, show(p, 3)[:200])
    try:
        st, D = P.D(i)
    except Missing as e:
        c.unk("decomposition", inst, str(e))
        return
    mats = find(D, lambda x: x.op == "wrs" and x.a[0].op == "fillm")
    if not mats:
        c.unk("palette matrix", inst, "not found")
    for M in mats:
        for r in M.a[1:]:
            q = nest(r)
            if q is None or len(q[0]) != 1 or any(o.op != "w" for o in q[1]):
                c.unk("palette matrix", inst, "writes")
                continue
            for j, o in enumerate(q[1]):
                ix = o.a[1]
                if not (ix.op == "agg" and len(ix.a) == 4):
                    c.unk("palette matrix", inst, "index")
                    continue
                for p in pairs_(ix.a[3], o.a[2]):
                    entry(c, p.a[0], p.a[1], ix.a[2], tris, "palette weight slot %d" % j, K, P.app.pal)
    for name, get in (("reconstruct", P.rec_image), ("get_channel_grayscale", P.gray_image)):
        try:
            im = get(i)
        except Missing as e:
            c.unk("channel", name, str(e))
            continue
        for n, v in enumerate(im.cs):
            where = "%s component %d" % (name, n)
            uses = find(v, lambda x: x.op == "idx" and x.a[0] in mats and x.a[1].op == "agg" and len(x.a[1].a) == 4)
            ch = {x.a[1].a[3] for x in uses}
            if name == "reconstruct":
                want = {x.a[1] for x in find(v, lambda x: x.op == "idx" and x.a[0] is P.app.pal2)}
            else:
                want = {P.app.chan}
            if len(ch) != 1 or len(want) != 1:
                c.unk("channel", where, "%d channels, %d colours" % (len(ch), len(want)))
            elif ch == want:
                c.ok("channel", where)
            else:
                c.bad("channel", where, "channel %s is combined with palette entry %s" % (show(ch.pop(), 4), show(want.pop(), 4)))


def query(c, p, s, t, img, K, slot):
    """the searched point is computed from a pixel as the points of the triangulation are"""
    if t.op != "tri" or not is_arr(p):
        c.unk("query", slot, show(t, 2)[:100])
        return
    for n, x in enumerate(p.a[2:]):
        f = formula(t.a[1], n, img)
        g = norm_pixel(x, img)
        if g is None:
            # coordinates only: no colour is read
            q = queries(p, img)
            if len(q) == 1:
                g = norm_pixel(tup(x, *[z for z in p.a[2:]]), img)
                g = g.a[2] if g is not None else None
        if f is None:
            f = formula_with(t.a[1], n, img)
        if f is None or g is None:
            c.unk("query", slot + " coordinate %d" % n, "formula")
            continue
        a, b = K(f), K(g)
        if a is b:
            c.ok("query", slot + " coordinate %d" % n)
        elif opaque(a, b):
            c.unk("query", slot + " coordinate %d" % n, "formula")
        else:
            c.bad("query", slot + " coordinate %d" % n, "points are %s, the searched point is %s" % (show(f, 6), show(g, 6)))


def formula_with(points, c, img):
    """formula of a coordinate that reads no colour: taken together with the colours of the same point"""
    for _ in range(4):
        if points.op != "seq" or points.a[0] is not EMPTY or len(points.a) != 2:
            return None
        r = nest(points.a[1])
        if r is None or len(r[1]) != 1 or r[1][0].op != "one" or r[1][0].a[0] is not TRUE:
            return None
        e = r[1][0].a[1]
        while e.op == "vr":
            e = e.a[0]
        if not is_arr(e):
            return None
        x = e.a[2 + c]
        if x.op == "pc" and x.a[0].op == "hull" and num(x.a[2]) is not None:
            points, c = x.a[0].a[1], int(num(x.a[2]))
            continue
        q = norm_pixel(e, img)
        return q.a[2 + c] if q is not None else None
    return None


def owner(M, j):
    """(hull, vertex number) whose point column j of a matrix holds"""
    nr = M.a[1]
    col = M.a[2 + j * nr: 2 + (j + 1) * nr]
    vs = {(x.a[0], x.a[1]) for x in col if x.op == "pc"}
    return vs


def entry(c, ch, val, row, tris, slot, K, pal):
    """one palette weight: value val is written for channel ch of triangulation vertex `row`"""
    c.count("palette weights")
    invs = [x for x in outer(val) if x.op == "idx" and x.a[0].op == "inv" and is_arr(x.a[0].a[0])]
    if not invs:
        c.unk("palette weight", slot, show(val, 3)[:150])
        return
    ms = {x.a[0] for x in invs}
    js = {x.a[1].a[2] for x in invs if x.a[1].op == "agg"}
    if len(ms) != 1 or len(js) != 1 or num(next(iter(js))) is None:
        if len(ms) == 1 and len(js) > 1:
            c.bad("palette weight", slot, "a weight mixes rows %s of the inverse" % sorted(show(x) for x in js))
        else:
            c.unk("palette weight", slot, "matrices %d rows %d" % (len(ms), len(js)))
        return
    M, j = ms.pop().a[0], int(num(js.pop()))
    if (len(M.a) - 2) % M.a[1] or (j + 1) * M.a[1] > len(M.a) - 2:
        c.unk("palette weight", slot, "matrix shape")
        return
    vs = owner(M, j)
    if len(vs) > 1:
        c.bad("tetrahedron", slot, "a column of the matrix mixes vertices " + ", ".join(sorted(show(v[1], 3) for v in vs)))
        return
    if not vs:
        c.unk("tetrahedron", slot, "column of the matrix")
        return
    h, v = next(iter(vs))
    # the channel
    if ch.op in ("first", "sel", "find") or ch.op == "first":
        us, rd = set(), False
        for at in atoms(ch.a[-1]):
            if at.op == "op" and len(at.a) == 3:
                ps = [peel(x) for x in at.a[1:]]
                us |= {(x.a[0], x.a[1]) for x in ps if x.op == "pc"}
                rd = rd or any(root_(x) is pal for x in ps)
        if len(us) != 1 or not rd:
            c.unk("channel of weight", slot, show(ch, 3)[:200])
        else:
            h2, u = us.pop()
            if h2 is h and u is v:
                c.ok("channel of weight", slot)
            elif opaque(u, v):
                c.unk("channel of weight", slot, "%s / %s" % (show(u, 3)[:100], show(v, 3)[:100]))
            else:
                c.bad("channel of weight", slot, "the weight of vertex %s goes to the channel of vertex %s" % (show(v, 4)[:300], show(u, 4)[:300]))
    elif ch is v or ch.op in ("fv", "best"):
        c.bad("channel of weight", slot, "the number of a hull vertex (%s) is used as channel" % show(ch, 3)[:200])
    else:
        c.unk("channel of weight", slot, show(ch, 3)[:200])
    # the decomposed colour is that of the triangulation vertex `row`
    us = {(x.a[0], x.a[1]) for x in shallow(val) if x.op == "pc" and x.a[0].op in ("tri", "hull") and num(x.a[0].a[0]) == 5}
    if not us:
        c.unk("decomposed colour", slot, "not found")
        return
    for t, u in us:
        if t in tris and u is row:
            c.ok("decomposed colour", slot)
        elif t in tris:
            if opaque(u, row):
                c.unk("decomposed colour", slot, show(u, 3)[:100])
            else:
                c.bad("decomposed colour", slot, "row %s is computed for vertex %s" % (show(row, 3), show(u, 3)))
        elif t.op == "hull":
            c.bad("decomposed colour", slot, "row %s of the palette matrix belongs to a vertex of the hull, but the weights count the "
                  "vertices of the triangulation" % show(row, 3))
        else:
            c.unk("decomposed colour", slot, show(t, 2)[:100])


def shallow(t):
    """the subterms of t that are not inside the points of a hull or triangulation or a pending fold"""
    out, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        out.append(x)
        if x.op not in ("hull", "tri"):
            st += [y for y in x.a if type(y) is T]
    return out


def peel(x):
    while x.op == "cast" or x.op == "op" and x.a[0] in ("fround", "ffloor", "fclamp"):
        x = x.a[2] if x.op == "cast" else x.a[1]
    return x


def root_(x):
    while x.op in ("idx", "f", "vr"):
        x = x.a[0]
    return x


def outer(t):
    """the atoms of the arithmetic at the top of a value"""
    out, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "op" and x.a[0] in ("f+", "f-", "f*", "f/", "fneg"):
            st += list(x.a[1:])
        else:
            out.append(x)
    return out
