"""C25: qhull's lists and sets are walked exactly, without their sentinels.

The iterators are analysed on abstract heaps: a list of m elements followed by qhull's sentinel (id 0, no successor), a set
of m members followed by the null slot. The addresses of the elements are distinct constants; all that an iterator does not
need stays unknown. What the value-flow graph of `next` gives after each step is compared with the elements in order."""
import re
from common import Check
import vbuild, rawc
from rawc import Run, short
from terms import *
import models
from chk_c02 import subterms
from models import I0
from eng import Abort, Interp, St

SIZES = (0, 1, 2, 3)


def adts(d):
    """field names of qhull's records"""
    res = {}
    for t in d["types"]:
        if t["k"] == "adt" and re.match(r"^qhull_sys::binding::(facetT|vertexT|setT|setelemT)$", t["s"]) and t["v"]:
            res[t["s"].split("::")[-1]] = [f[0] for f in t["v"][0]["f"]]
    return res


def address(i, of=0):
    return I0(0x10000 * (of + 1) + 0x100 * i)


def put(st, p, v):
    st.mem = dict(st.mem) if isinstance(st.mem, dict) else st.mem
    st.mem[mk("loc", "g", p)] = v


def node(kind, fields, p, vals):
    return mk("agg", kind, 0, *[vals.get(f, fld_(p, i)) for i, f in enumerate(fields)])


def fld_(p, i):
    return mk("app", "memory", p, i)


def lists(c, d, A):
    """functions that give out list iterators"""
    for b in sorted(d["bodies"], key=lambda b: b["name"]):
        rt = d["types"][b["locals"][0]]["s"]
        m = re.match(r"^qhull_rs::raw::(Facet|Vertex)ListIterator<", rt)
        if not m or b["argc"] != 1 or not re.match(r"^qhull_rs::Raw(Hull|Delaunay)::<", b["name"]):
            continue
        w = short(b)
        kind = m.group(1).lower()
        nx = [x for x in d["bodies"] if x["name"] == "<%s as std::iter::Iterator>::next" % rt]
        if not nx:       # the same generic function in another dimension
            nx = [x for x in d["bodies"] if re.match(r"^<qhull_rs::raw::%sListIterator<.* as std::iter::Iterator>::next$" % m.group(1), x["name"])]
        if not nx:
            c.unk("list", w, "no next for " + rt)
            continue
        c.count("list iterators")
        walk(c, d, A, w, b, nx[0], kind)


def walk(c, d, A, w, b, nx, kind):
    fields = A[kind + "T"]
    for m in SIZES:
        I = None
        try:
            I = Interp(d, dict(rawc.MODELS))
            I.logstores = True
            heads = {}

            def foreign(cx):
                n = (cx.rkey or cx.key).split("::")[-1]
                r = {"rqh_get_facet_list": ("facet", 1), "rqh_get_vertex_list": ("vertex", 2)}.get(n)
                if r:
                    h = I0(0x100 * r[1])
                    heads[r[0]] = h
                    put(cx.st, h, address(0, r[1]))
                    return h
                return rawc.foreign_(cx)
            I.models["!foreign"] = foreign
            st = St()
            for k, (kd, of) in enumerate((("facet", 1), ("vertex", 2))):
                fs = A[kd + "T"]
                for i in range(m + 1):
                    p = address(i, of)
                    last = i == m
                    put(st, p, node(kd + "T", fs, p, dict(
                        id=I0(0 if last else 7 + i), next=I0(0) if last else address(i + 1, of),
                        previous=I0(0) if i == 0 else address(i - 1, of))))
            fr = mk("fr", "c25", b["id"])
            it = I.run(b, [var("p", 0, b["name"])], st, fr)
            loc = mk("loc", mk("fr", "c25", "it"), 0)
            st.mem[loc] = it
            of = {"facet": 1, "vertex": 2}[kind]
            want = [address(i, of) for i in range(m)]
            got = steps(I, nx, loc, st, m + 1)
        except Abort as e:
            c.unk("list walk", "%s, %d elements" % (w, m), str(e)[:150])
            continue
        verdict(c, "list walk", "%s, %d elements" % (w, m), got, want)


def steps(I, nx, loc, st, n):
    """what n calls of next give: addresses, None for the end, or terms that were not understood"""
    res = []
    for k in range(n):
        r = I.run(nx, [mk("ref", loc)], st, mk("fr", "c25", nx["id"], k))
        if st.pc is FALSE:
            res.append("panics")
            break
        if r.op == "agg" and r.a[0].split("::")[-1] == "Option":
            if r.a[1] == 0:
                res.append(None)
                break
            cs = [x for x in subterms(r.a[2]) if x.op == "c" and isinstance(x.a[0], int)]
            res.append(cs[0] if len(cs) == 1 else r.a[2])
        else:
            res.append(r)
            break
    return res


def verdict(c, kind, where, got, want):
    def nm(x):
        if x is None:
            return "the end"
        if isinstance(x, str):
            return x
        if x in want:
            return "element %d" % (want.index(x) + 1)
        if x.op == "c" and x.a[0] == 0:
            return "a null element"
        if x.op == "c" and want and x.a[0] >= max(y.a[0] for y in want):
            return "something after the last element"
        return "something that is not an element" if x.op == "c" else show(x, 3)[:100]
    exp = list(want) + [None]
    for i, g in enumerate(got):
        e = exp[i]
        if g is e or (isinstance(g, T) and isinstance(e, T) and num(g) is not None and num(g) == num(e)):
            continue
        if isinstance(g, T) and g.op != "c":
            c.unk(kind, where, "step %d: %s" % (i + 1, nm(g)))
        else:
            c.bad(kind, where, "step %d gives %s where %s is next" % (i + 1, nm(g), "the end marker" if e is None else "element %d" % (i + 1)))
        return
    if len(got) == len(exp):
        c.ok(kind, where, "all elements in order, then the end")
    else:
        c.unk(kind, where, "%d steps" % len(got))


MEMBERS = [("Facet", "vertices", "vertices"), ("Facet", "neighbors", "neighbors"), ("Vertex", "neighbors", "neighbors")]


def sets(c, d, A):
    types = {}
    for b in sorted(d["bodies"], key=lambda b: b["name"]):
        m = re.match(r"^qhull_rs::raw::(Facet|Vertex)::<'_, nalgebra::Const<\d+>>::(\w+)$", b["name"])
        rt = d["types"][b["locals"][0]]["s"]
        ms = re.match(r"^qhull_rs::raw::SetIter<", rt)
        if not m or not ms or b["argc"] != 1:
            continue
        w = short(b)
        field = {(x, y): z for x, y, z in MEMBERS}.get((m.group(1), m.group(2)))
        if field is None:
            c.unk("set", w, "no field is known for it")
            continue
        c.count("set iterators")
        try:
            r = Run(d, b)
        except Abort as e:
            c.unk("set start", w, str(e)[:150])
            continue
        rec = m.group(1).lower() + "T"
        ei = A["setT"].index("e")
        fi = A[rec].index(field)
        start(c, w, r, rec, field, fi, ei, A)
        types.setdefault(rt, b)
    for b in d["bodies"]:
        m = re.match(r"^<(qhull_rs::raw::SetIter<.*) as std::iter::Iterator>::next$", b["name"])
        if m:
            members(c, d, b)
        m = re.match(r"^<(qhull_rs::raw::(?:SetIter|FacetListIterator|VertexListIterator)<.*) as std::clone::Clone>::clone$", b["name"])
        if m:
            try:
                r = Run(d, b)
            except Abort as e:
                c.unk("clone", short(b), str(e)[:150])
                continue
            p = mk("*", r.p[0])
            fs = [fldv(p, i) for i in range(2)]
            v = r.ret
            if v is p or v.op == "agg" and len(v.a) > 2 and v.a[2] is fs[0]:
                c.ok("clone", short(b), "goes on where the original is")
            elif v.op == "agg" and len(v.a) > 2 and v.a[2].op in ("padd", "c", "ite"):
                c.bad("clone", short(b), "a clone goes on somewhere else: %s" % show(v, 4)[:120])
            else:
                c.unk("clone", short(b), show(v, 4)[:120])


def fldv(v, i):
    from eng import fld
    return fld(v, i)


def start(c, w, r, rec, field, fi, ei, A):
    """the iterator starts at the first slot of the set in the field of that name"""
    from eng import fld
    v = r.ret
    if v.op != "agg":
        c.unk("set start", w, show(v, 3)[:100])
        return
    ps = [x for x in v.a[2:] if x.op in ("ref", "padd", "ite", "c", "fld", "*")]
    if len(ps) != 1:
        c.unk("set start", w, show(v, 3)[:150])
        return
    p = ps[0]
    if p.op == "padd":
        c.bad("set start", w, "starts %s slots after the first" % show(p.a[1], 2)[:40])
        return
    if p.op != "ref" or not (p.a[0].op == "loc" and p.a[0].a[0] == "g"):
        c.unk("set start", w, show(p, 3)[:150])
        return
    base, path = p.a[0].a[1], p.a[1:]
    el = mk("*", fld(mk("*", r.p[0]), 0))
    good = fld(el, fi)
    if base is not good:
        others = {fld(el, i): n for i, n in enumerate(A[rec])}
        if base in others:
            c.bad("set start", w, "walks %s instead of %s" % (others[base], field))
        else:
            c.unk("set start", w, show(base, 4)[:150])
        return
    if not path or path[0].op != "pf" or path[0].a[0] != ei:
        c.bad("set start", w, "starts at another part of the set") if path and path[0].op == "pf" else c.unk("set start", w, show(p, 3)[:150])
        return
    for x in path[1:]:
        k = num(x.a[0]) if type(x.a[0]) is T else x.a[0]
        if x.op == "pi" and k != 0:
            c.bad("set start", w, "starts at slot %s" % k) if isinstance(k, int) else c.unk("set start", w, show(p, 3)[:150])
            return
    c.ok("set start", w, "first slot of %s" % field)


def members(c, d, b):
    """next on a set with m members"""
    w = short(b)
    for m in SIZES:
        try:
            I = Interp(d, dict(rawc.MODELS))
            I.logstores = True
            st = St()
            a0 = I0(0x900)
            want = [address(i) for i in range(m)]
            for i in range(m + 1):
                put(st, models.padd(a0, I0(i)), I0(0) if i == m else want[i])
            rt = d["types"][b["locals"][1]]
            it = d["types"][rt["e"]]
            fs = it["v"][0]["f"]
            vals = []
            for n, t in fs:
                k = d["types"][t]
                vals.append(a0 if "NonNull" in k["s"] or k["k"] == "ptr" else mk("agg", "PhantomData", 0))
            loc = mk("loc", mk("fr", "c25", "it"), 0)
            st.mem[loc] = mk("agg", it["n"], 0, *vals)
            got = steps(I, b, loc, st, m + 1)
        except Abort as e:
            c.unk("set walk", "%s, %d members" % (w, m), str(e)[:150])
            continue
        verdict(c, "set walk", "%s, %d members" % (w, m), got, want)


def run():
    c = Check("C25", "On every abstract list of up to %d elements that ends with qhull's sentinel, and every set of up to %d members that ends with a null slot, each iterator gives the elements in order and then the end; it starts at the head of the right list or the first slot of the right set." % (max(SIZES), max(SIZES)))
    d = vbuild.mir(wasm=True)
    A = adts(d)
    lists(c, d, A)
    sets(c, d, A)
    c.assumptions.append("qhull ends its facet and vertex lists with a record that has id 0 and no successor, gives no other record id 0, and ends its sets with a null slot")
    c.assumptions.append("the iterators treat the elements uniformly, so that lists and sets of up to %d elements stand for all" % max(SIZES))
    return c.finish()
