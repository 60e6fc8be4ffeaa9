"""C02: qhull receives exactly the caller's points."""
import re
from common import Check
import vbuild, pipe, rawc, geo, canon
from rawc import Run, short
from terms import *
from eng import eq, Abort, imul, cast, length, EMPTY

ALLOC = ("malloc", "calloc", "aligned_alloc", "realloc")


def lens(t):
    """the sequences whose lengths occur in a term"""
    return {x.a[0] for x in subterms(t) if x.op == "len"}


def source(run):
    """the caller's points: the sequence behind the first parameter"""
    p = run.p[0]
    t = run.dump["types"][run.b["locals"][1]]
    return (mk("*", p), p) if t["k"] in ("ref", "ptr") else (p, p)


def points(c, d):
    for b, (kind, n) in rawc.constructors(d):
        w = short(b)
        try:
            r = Run(d, b)
            ev = rawc.effects(r)
        except Abort as e:
            c.unk("buffer", w, str(e)[:200])
            continue
        c.count("constructors")
        data = [x for x in source(r)]
        ib = [(i, pc, a) for i, (pc, f, a, v) in enumerate(ev) if f == "qh_init_B"]
        if len(ib) != 1:
            c.unk("buffer", w, "%d hand-overs" % len(ib))
            continue
        i, pc, a = ib[0]
        buf, cnt, dim, own = a[1], a[2], a[3], a[4]
        # the dimension and the count
        nd = num(dim)
        if nd is None:
            c.unk("dimension", w, show(dim, 3)[:100])
        else:
            c.decide(nd == n, "dimension", w, "points of dimension %d are handed over as points of dimension %d" % (n, nd), str(nd))
        L = [length(x) for x in data]
        good = {cast(x, "usize", "i32") for x in L} | set(L)
        cc = cnt
        if cc in good:
            c.ok("count", w, "the number of the caller's points")
        elif cc.op == "c" or not opq(cc) or partial(cc):
            c.bad("count", w, "qhull is told that there are %s points" % show(cc, 4)[:120])
        else:
            c.unk("count", w, show(cc, 4)[:120])
        c.decide(bool(num(own)) if num(own) is not None else None, "owner", w, "qhull is not made the owner of the points", "qhull owns the points")
        # the buffer
        al = [(k, f, x, v) for k, (p_, f, x, v) in enumerate(ev) if v is buf]
        if not al:
            if buf.op in ("ref", "vr", "v", "*") or buf.op == "app" and buf.a[0].split("::")[-1] in ("as_ptr", "as_mut_ptr", "into_raw"):
                c.bad("buffer", w, "qhull gets memory that is not its own: %s" % show(buf, 3)[:100])
            else:
                c.unk("buffer", w, show(buf, 3)[:100])
            continue
        k0, f, x, v = al[0]
        if f not in ALLOC:
            c.bad("buffer", w, "qhull frees the points as C memory, but they come from %s" % f)
            continue
        S = [imul(l, const(8 * n, "int")) for l in L]
        sz = x[-1] if f != "calloc" else imul(x[0], x[1])
        size(c, w, "size of the buffer", sz, S)
        cp = [(k, p_, g, y) for k, (p_, g, y, v2) in enumerate(ev) if g in ("memcpy", "memmove") and y[0] is buf]
        if len(cp) != 1:
            wr = [s for s in r.stores() if buf in subterms(s[1])]
            if cp:
                c.unk("copy", w, "%d copies" % len(cp))
            elif wr:
                c.unk("copy", w, "element by element")
            elif any(k0 < k < i and any(buf in subterms(z) for z in y if type(z) is T) for k, (p_, g, y, v2) in enumerate(ev)):
                c.unk("copy", w, "by another function")
            else:
                c.bad("copy", w, "nothing is copied into the buffer")
        else:
            k, p_, g, y = cp[0]
            if k > i:
                c.bad("copy", w, "the points are copied after they were handed over")
            elif not And(r.pc, Not(p_)) is FALSE:
                c.bad("copy", w, "the points are not copied on every path")
            else:
                c.ok("copy", w, "before the hand-over")
            src = y[1]
            while src.op in ("vr", "ref"):
                src = src.a[0] if src.op == "vr" else r.I.load(r.st, src)
            if src in data:
                c.ok("source", w, "the caller's points")
            elif wrong(src, data) is not None:
                c.bad("source", w, wrong(src, data))
            else:
                c.unk("source", w, show(src, 3)[:120])
            size(c, w, "bytes copied", y[2], S)
        # nothing else frees or uses it
        bad = False
        for k, (p_, g, y, v2) in enumerate(ev):
            if g in ("free", "realloc") and any(z is buf for z in y) and (g == "free" or v2 is not buf):
                c.bad("freed", w, "%s is called on the buffer that qhull owns" % g)
                bad = True
            elif k > i and not g.startswith(("result:", "store:")) and any(z is buf for z in y if type(z) is T) and g != "qh_init_B":
                c.bad("used after the hand-over", w, g)
                bad = True
        if not bad:
            c.ok("sole owner", w, "not freed and not used after the hand-over")


def partial(t):
    """counts only the elements with some property, or the room of a vector"""
    return any(x.op == "isum" and any(y.op == "ite" for y in x.a if type(y) is T) or x.op == "app" and x.a[0].split("::")[-1] == "capacity"
               for x in subterms(t))


def wrong(src, data):
    """why the copied sequence is definitely not the caller's"""
    if src.op in ("padd", "slice", "sub", "psl", "sl"):
        return "copies from %s" % show(src, 3)[:120]
    if src.op == "seq" and src.a[0] is EMPTY and len(src.a) == 2 and src.a[1].op == "rep" and len(src.a[1].a) == 4 and src.a[1].a[3].op == "one":
        k, g, o = src.a[1].a[1:]
        base = [x for x in data if g.op == "gen" and g.a[0] is length(x)]
        if base:
            if o.a[0] is not TRUE:
                return "only the points with %s are copied" % show(o.a[0], 3)[:100]
            el = o.a[1]
            while el.op in ("vr", "ref", "*"):
                el = el.a[0]
            if el.op == "idx" and el.a[0] in data and el.a[1] is k:
                return None
            if not opq(o.a[1]):
                return "changed points are copied: %s" % show(o.a[1], 3)[:100]
    return None


def opq(t):
    """contains something that the analysis does not understand"""
    return any(x.op in ("app", "opq", "bytes?", "sizeof", "mu", "rec", "out") for x in subterms(t))


def size(c, w, what, got, want):
    if got in want:
        c.ok(what, w, "points times dimension times 8")
        return
    if opq(got):
        c.unk(what, w, show(got, 4)[:120])
    else:
        c.bad(what, w, "is %s instead of %s" % (show(got, 4)[:120], show(want[0], 4)[:120]))


_sub = {}


def subterms(t):
    if t in _sub:
        return _sub[t]
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(y for y in x.a if type(y) is T)
    _sub[t] = seen
    return seen


def wrappers(c, d):
    """the array forms pass their points on whole"""
    def raw_(cx):
        v = cx.args[0]
        while v.op in ("ref", "vr"):
            v = cx.load(v)
        return mk("rawof", v)

    def table(cx):
        return mk("tableof", cx.args[0])
    for b in d["bodies"]:
        m = re.match(r"^<?qhull_rs::(ConvexHull|Delaunay)(::)?<nalgebra::Const<\d+>>", b["name"])
        if not m or "{closure" in b["name"] or not b["name"].split("::")[-1] in ("from_arrays", "from_iter"):
            continue
        ct = {"qhull_rs::Raw%s::%s" % (k, f): raw_ for k in ("Hull", "Delaunay") for f in ("from_arrays", "from_vectors", "from_iter")}
        ct.update({"qhull_rs::%s::from_qhull_raw" % k: table for k in ("ConvexHull", "Delaunay")})
        for x in d["bodies"]:
            if x["name"].startswith("<qhull_rs::RawHull") and x["name"].endswith("from_iter"):
                ct[x["def"]] = raw_
                ct[rawc.normkey(x["def"])] = raw_
        w = short(b)
        try:
            r = Run(d, b, ct)
        except Abort as e:
            c.unk("passed on", w, str(e)[:200])
            continue
        v = r.ret
        if v.op == "tableof" and v.a[0].op == "rawof":
            s = v.a[0].a[0]
            if s in source(r):
                c.ok("passed on", w, "all of the caller's points")
            elif opq(s):
                c.unk("passed on", w, show(s, 4)[:100])
            else:
                c.bad("passed on", w, "only %s of the caller's points" % show(s, 4)[:100])
        else:
            c.unk("passed on", w, show(v, 3)[:100])
        c.count("array forms")


def run():
    c = Check("C02", "value-flow terms of every constructor: the buffer given to qhull is C memory whose size, the bytes copied into it, the point count "
              "and the dimension are all derived from one sequence, the caller's; qhull is made its owner (LLVM IR of the C shim) and nothing "
              "else frees or uses it afterwards")

    def go():
        d = vbuild.mir()
        points(c, d)
        wrappers(c, d)
    pipe.run(go, c)
    return c.finish()
