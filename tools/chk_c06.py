"""C06: C API objects are released as they were created; failures write nothing."""
from common import Check
import vbuild, pipe, capi, canon
from capi import *
from pipe import Missing, run as prun
from rtypes import RTypes

PAIRS = (("create_image_weights", "free_image_weights"), ("create_decomposed_image", "free_decomposed_image"),
         ("compute_palette", "free_computed_palette"), ("create_image_buffer", "free_image_buffer"))
# the failure of the underlying operation, output parameter, bytes per pixel
OUTPUTS = {"reconstruct_image": ("reconstruct", 2, 3), "grayscale_image_channel": ("get_channel_grayscale", 2, 1)}


def run():
    c = Check("C06", "per exported function, on the gated value-flow graph of its MIR: the type and length of every allocation that is handed "
              "out equal those that the paired free function releases, the failure value is returned exactly under the failure condition "
              "of the underlying operation, and stores through the caller's pointers happen only where success is returned, with the "
              "output's exact length and source")

    def go():
        d = vbuild.mir(wasm=True)
        F = {}
        for b in capi.functions(d):
            try:
                F[b["sym"]] = capi.Fn(d, b)
                c.count("functions")
            except (Abort, RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError) as e:
                c.unk("function", b["sym"], "%s: %s" % (type(e).__name__, str(e)[:200]))
        for a, f in PAIRS:
            if a in F and f in F:
                pair(c, d, F[a], F[f])
            else:
                c.unk("pair", a + "/" + f, "not both analysed")
        for n in ("create_image_weights", "compute_palette", "create_decomposed_image"):
            if n in F:
                created(c, F[n])
        for n, f in F.items():
            if n not in {x for p in PAIRS for x in p} | set(OUTPUTS):
                stray(c, f)
        for n, (op, out, bpp) in OUTPUTS.items():
            if n in F:
                output(c, F[n], op, out, bpp)
        arguments(c, F)
    prun(go, c)
    return c.finish()


def subst_params(f, names):
    return {p: var("shared", names[i]) for i, p in enumerate(f.params) if i in names}


def success(f):
    """(condition under which something other than null is returned, values returned then)"""
    cond, vals = FALSE, []
    for g, x in gleaves(f.ret):
        if num(x) == 0:
            continue
        cond = Or(cond, g)
        vals.append(x)
    return cond, vals


def allocs(f):
    return [l for l in f.log if l[0] == "into_raw"]


def frees(f):
    return [l for l in f.log if l[0] == "from_raw"]


def pointee(d, i):
    t = d["types"][i]
    if t["k"] in ("ptr", "ref"):
        return t["e"]
    if t["k"] == "adt" and t["n"].split("::")[-1] == "Box":
        return t["a"][0]
    return None


def pair(c, d, a, f):
    where = a.name + "/" + f.name
    al, fr = allocs(a), frees(f)
    if not fr:
        c.decide(None if f.I.unmodelled else False, "release", f.name, "releases nothing (%s)" % sorted(f.I.unmodelled)[:3])
        return
    if not al:
        c.unk("allocation", a.name, "no boxed value is handed out")
        return
    cond, vals = success(a)
    # every object that is returned
    for v in vals:
        src = [l for l in al if l[4] is v or base(v) is l[4]]
        if len(src) != 1:
            c.unk("allocation", a.name, "returned value " + show(v, 2)[:100])
            continue
        l = src[0]
        ta = pointee(d, l[2])
        for q in fr:
            tf = pointee(d, q[2])
            same(c, d, where, a, f, l, q, ta, tf)
        escapes = [x for x in a.log if x[0] == "drop" and (x[2] is l[3] or x[2] is v)]
        # a release on the way out of a function that returns the object
        c.decide(not [x for x in escapes if And(x[1], cond) is not FALSE and x[2] is v], "returned alive", a.name, "the returned object is dropped")
    # released once, completely, on every path (a null check is allowed)
    tot = FALSE
    for q in fr:
        if And(tot, q[1]) is not FALSE:
            c.bad("release", f.name, "released twice on one path")
            break
        tot = Or(tot, q[1])
    else:
        c.ok("release", f.name, "at most once")
    rest = Not(tot)
    if rest is FALSE:
        c.ok("release", f.name, "on every path")
    elif nullcheck(rest, f):
        c.ok("release", f.name, "on every path with an object")
    else:
        c.unk("release", f.name, "not released when " + show(rest, 3)[:160])
    for q in fr:
        ds = [x for x in f.log if x[0] == "drop" and x[2].op == "boxed" and x[2].a[0] is q[3]]
        lost = [x for x in f.log if x[0] in ("forget", "into_raw") and q[1] is not FALSE and
                (x[2] if x[0] == "forget" else x[3]).op == "boxed" and (x[2] if x[0] == "forget" else x[3]).a[0] is q[3]]
        c.decide(bool(ds) or (False if lost else None), "dropped", f.name, "the released box is not dropped")
    # the pointer that is released is the parameter
    for q in fr:
        p = base(q[3])
        c.decide(True if p in f.params else None, "pointer", f.name, "releases " + show(q[3], 3)[:120])


def nullcheck(g, f):
    return all(x.op in ("isnull", "op") and find(x, lambda y: y in f.params) for x in atoms(g))


def base(p):
    """the pointer behind slices and places"""
    while True:
        if p.op == "rawslice":
            p = p.a[0]
        elif p.op == "ref" and p.a[0].op == "loc" and p.a[0].a[0] == "g" and len(p.a) == 1:
            p = p.a[0].a[1]
        elif p.op == "vr":
            p = p.a[0]
        elif p.op == "cast" and len(p.a) == 3:
            p = p.a[2]
        else:
            return p


def slicelen(p):
    while True:
        if p.op == "rawslice":
            return p.a[1]
        if p.op == "ref" and p.a[0].op == "loc" and p.a[0].a[0] == "g" and len(p.a) == 1:
            p = p.a[0].a[1]
        elif p.op == "vr":
            p = p.a[0]
        else:
            return None


def same(c, d, where, a, f, l, q, ta, tf):
    A, F = d["types"][ta], d["types"][tf]
    if (A["k"] == "slice") != (F["k"] == "slice"):
        if A["k"] == "slice" or F["k"] == "slice":
            c.bad("type", where, "allocated as %s, released as %s" % (A["s"], F["s"]))
            return
    if A["k"] != "slice":
        if A["s"] == F["s"] or layout(d, ta) == layout(d, tf) is not None and not droppy(d, ta) and not droppy(d, tf):
            c.ok("type", where, A["s"])
        else:
            c.bad("type", where, "allocated as %s, released as %s" % (A["s"], F["s"]))
        return
    ea, ef = A["e"], F["e"]
    x, y = layout(d, ea), layout(d, ef)
    if d["types"][ea]["s"] == d["types"][ef]["s"] or x is not None and x == y:
        c.ok("type", where, "elements %s and %s" % (d["types"][ea]["s"], d["types"][ef]["s"]))
    elif x is None or y is None:
        c.unk("type", where, "%s and %s" % (A["s"], F["s"]))
    else:
        c.bad("type", where, "elements of %s are released as elements of %s" % (d["types"][ea]["s"], d["types"][ef]["s"]))
    # lengths
    la, lf = length(l[3]), slicelen(q[3])
    if lf is None:
        c.unk("length", where, "released length unknown")
        return
    if a.name == "compute_palette":
        outs = [s for s in a.log if s[0] == "store" and s[2] in a.params]
        if len(outs) != 1:
            c.decide(False if not outs else None, "length", where, "the length is not reported to the caller" if not outs else "%d stores" % len(outs))
            return
        X = outs[0][4]
        if f.params[1:] and any(x is f.params[1] for x in find(lf, lambda x: x.op == "v")):
            got = subst(lf, {f.params[1]: X})
        else:
            got = lf
        if got is la or lossless(got) is la:
            c.ok("length", where, "reported exactly")
        elif truncates(X, la):
            c.bad("length", where, "the number of colours is reported as %s, which loses sizes above 255" % show(X, 2)[:120])
        elif any(x.op == "app" for x in find(got, lambda x: x.op == "app")) or num(got) is not None:
            c.bad("length", where, "allocated with length %s, released with %s" % (show(la, 3)[:120], show(got, 4)[:160]))
        else:
            c.unk("length", where, "allocated with length %s, released with %s" % (show(la, 3)[:120], show(got, 4)[:160]))
        return
    # sizes given by the caller to both functions
    pa = [p for p in a.params if find(la, lambda x: x is p)]
    pf = [p for p in f.params if find(lf, lambda x: x is p)]
    if len(pa) == 1 and len(pf) == 1:
        s = var("size")
        x, y = subst(la, {pa[0]: s}), subst(lf, {pf[0]: s})
        c.decide(x is y, "length", where, "allocated with length %s, released with %s" % (show(x, 3)[:120], show(y, 3)[:120]))
    else:
        c.unk("length", where, "%s and %s" % (show(la, 3)[:120], show(lf, 3)[:120]))


def lossless(t):
    """t without conversions that were checked to keep the value"""
    while t.op in ("ncast",) or t.op == "cast" and t.a[0] in ("u8", "u16", "u32") and t.a[1] in ("usize", "u64", "u32", "u16"):
        t = t.a[-1]
    return t


def truncates(x, la):
    while x.op in ("cast", "ncast"):
        if x.op == "cast" and x.a[0] == "usize" and x.a[1] in ("u8", "u16", "u32") and x.a[2] is la:
            return True
        x = x.a[-1]
    return False


def layout(d, i):
    try:
        return RTypes(d["types"], 8).layout(i)
    except (ValueError, KeyError, IndexError):
        return None


def droppy(d, i):
    return d["types"][i]["k"] == "adt"


def created(c, f):
    """an object is returned exactly when the underlying operation succeeds"""
    cond, vals = success(f)
    want = TRUE
    kinds = {}
    for x in atoms(cond):
        if x.op == "fits":
            kinds["the bytes fit the size"] = lit(x)
            want = And(want, lit(x))
        elif x.op == "is1" and x.a[0].op == "app" and x.a[0].a[0] == "DecomposedImage::new" and f.name == "create_decomposed_image":
            want = And(want, Not(lit(x)))
        elif x.op == "op" and x.a[0] in ("<", "<=", "==") and f.name == "compute_palette" and representable(x) is not None:
            want = And(want, representable(x))
        else:
            c.unk("failure", f.name, "depends on " + show(x, 3)[:160])
            return
    if f.name == "create_decomposed_image" and not any(x.op == "is1" for x in atoms(cond)):
        c.bad("failure", f.name, "the failure of the decomposition is not reported")
    elif cond is want:
        c.ok("failure", f.name, "null exactly on failure")
    else:
        c.bad("failure", f.name, "an object is returned when " + show(cond, 4)[:200])
    # nothing is written unless an object is returned
    for l in f.log:
        if l[0] in ("store", "copy") and base(l[2]) in f.params:
            if And(l[1], Not(cond)) is FALSE:
                c.ok("written", f.name, "only with an object")
            else:
                c.decide(False if set(atoms(l[1])) <= set(atoms(cond)) else None, "written", f.name,
                         "writes through parameter %d although null is returned" % f.params.index(base(l[2])))
        elif l[0] in ("store", "copy"):
            c.unk("written", f.name, show(l[2], 3)[:120])
    # objects that are made must be returned
    for l in allocs(f):
        c.decide(And(l[1], Not(cond)) is FALSE or None, "leak", f.name, "an object is made but null is returned")


def representable(x):
    """the condition that a length fits a byte, as a decision on the comparison x"""
    if x.a[0] == "<":
        if x.a[1].op == "len" and num(x.a[2]) == 256:
            return lit(x)
        if x.a[2].op == "len" and num(x.a[1]) == 255:
            return Not(lit(x))
    return None


def replace(t, m):
    return canon.rewrite(t, lambda x: m.get(x, x))


# ------------------------------------------------ outputs
def opfail(f, op):
    """(atom that tells the operation's variants apart, failure variant's truth value)"""
    r = set()
    for x in set(find(f.ret, lambda x: x.op == "is1")) | {y for l in f.log for y in find(l[1], lambda x: x.op == "is1")}:
        if x.a[0].op == "app" and x.a[0].a[0].split("::")[-1] == op.split("::")[-1]:
            r.add(x)
    return r


def sizes_only(f, x):
    """a condition on the image's size alone; whether an operation succeeds does not depend on it"""
    def cut(y):
        return var("size") if y.op == "app" and y.a[0] in ("DecomposedImage::width", "DecomposedImage::height") else y
    r = canon.rewrite(x, cut)
    return not find(r, lambda y: y.op in ("app", "fold", "len", "is1", "f", "loc") or y in f.params or y.op == "v" and y.a[0] != "size")


def output(c, f, op, out, bpp):
    at = opfail(f, op)
    if len(at) != 1:
        c.unk("result", f.name, "%d underlying operations" % len(at))
        return
    at = at.pop()
    R = at.a[0]
    good = lit(at)
    cond, vals = success(f)
    if cond is good:
        c.ok("result", f.name, "success is reported exactly when the operation succeeds")
    elif all(x in atoms(good) for x in atoms(cond)):
        c.bad("result", f.name, "success is reported when " + show(cond, 3)[:160])
    else:
        c.unk("result", f.name, "success is reported when " + show(cond, 3)[:160])
    c.decide(all(num(v) == 1 for v in vals), "result", f.name + " value", "success value %s" % [show(v, 1) for v in vals])
    p = f.params[out]
    ws = [l for l in f.log if l[0] in ("store", "copy") and base(l[2]) in f.params]
    copies = [l for l in ws if l[0] == "copy"]
    for l in ws:
        if base(l[2]) is not p:
            c.bad("written", f.name, "writes through parameter %d" % f.params.index(base(l[2])))
        elif And(l[1], Not(good)) is not FALSE:
            c.decide(False if all(x in atoms(good) for x in atoms(l[1])) else None, "written", f.name,
                     "the output is written when the operation failed")
        else:
            c.ok("written", f.name, "only after success")
    if len(copies) != 1:
        c.unk("output", f.name, "%d copies" % len(copies))
        return
    l = copies[0]
    if l[1] is not good:
        c.decide(False if all(x in atoms(good) for x in atoms(l[1])) else None, "output", f.name, "not written whenever success is reported")
    n = slicelen(l[2])
    data = fld(R, 0, 1)
    if l[3].op == "imgdata" and l[3].a[0] is data:
        c.ok("source", f.name, "the operation's image")
    else:
        c.decide(None, "source", f.name, show(l[3], 3)[:160])
    W, H = mk("imgw", data), mk("imgh", data)
    # the result is as large as the decomposed image (C13)
    m = {mk("app", "DecomposedImage::width", R.a[1]): W, mk("app", "DecomposedImage::height", R.a[1]): H} if len(R.a) > 1 else {}
    want = imul(imul(cast(W, "u32", "usize"), cast(H, "u32", "usize")), const(bpp, "int"))
    got = replace(n, m) if n is not None else None
    got = replace(got, {length(l[3]): want}) if got is not None else None
    if got is want:
        c.ok("length", f.name, "%d bytes per pixel" % bpp)
    elif got is None or not set(find(got, lambda x: x.op in ("imgw", "imgh"))) <= {W, H} or find(
            replace(got, {W: var("w"), H: var("h")}), lambda x: x.op in ("app", "ite", "fold", "len", "ncast", "*")):
        c.unk("length", f.name, show(n, 4)[:200] if n is not None else "unknown")
    else:
        c.bad("length", f.name, "the output has %s bytes instead of %s" % (show(got, 5)[:160], show(want, 5)[:160]))


def stray(c, f):
    ws = [l for l in f.log if l[0] in ("store", "copy") and base(l[2]) in f.params]
    c.decide(not ws, "written", f.name, "writes to the caller's memory")
    for l in frees(f):
        c.bad("release", f.name, "releases an object that stays with the caller")


# ------------------------------------------------ the underlying operation is the one for these arguments
def arguments(c, F):
    p = lambda n, i: F[n].params[i]
    obj = lambda n, i: mk("*", p(n, i))
    ops = {
        "create_image_weights": ("ImageWeights::new", [None]),
        "compute_palette": ("compute_palette", [None, "p3", "p4", "p5"]),
        "create_decomposed_image": ("DecomposedImage::new", ["o0", ("s", 2, "p1")]),
        "reconstruct_image": ("DecomposedImage::reconstruct", ["o0", ("s", 1, "channels")]),
        "grayscale_image_channel": ("DecomposedImage::get_channel_grayscale", ["o0", "p1"]),
        "get_decomposed_image_width": ("DecomposedImage::width", ["o0"]),
        "get_decomposed_image_height": ("DecomposedImage::height", ["o0"]),
        "get_decomposed_image_num_channels": ("DecomposedImage::num_channels", ["o0"]),
    }
    for n, (op, args) in ops.items():
        if n not in F:
            continue
        f = F[n]
        terms = [f.ret] + [x for l in f.log for x in l if type(x) is T]
        apps = {x for t in terms for x in find(t, lambda x: x.op == "app" and x.a[0] == op)}
        if len(apps) != 1:
            c.unk("operation", n, "%d calls of %s" % (len(apps), op))
            continue
        x = apps.pop()
        for i, w in enumerate(args):
            v = x.a[1 + i] if len(x.a) > 1 + i else None
            if w is None or v is None:
                continue
            where = "%s: argument %d of %s" % (n, i + 1, op)
            if w == "o0":
                c.decide(v is mk("*", f.params[0]), "argument", where, show(v, 3)[:120])
            elif isinstance(w, str):
                q = f.params[int(w[1:])]
                u = lossless(v)
                others = [y for y in f.params if find(v, lambda z: z is y)]
                c.decide(True if u is q else False if others and q not in others else None, "argument", where, show(v, 3)[:120])
            else:
                _, i0, cnt = w
                if v.op == "*":
                    v = v.a[0]
                if v.op != "rawslice":
                    c.unk("argument", where, show(v, 3)[:120])
                    continue
                q = f.params[i0]
                c.decide(True if base(v) is q else None, "argument", where, show(v, 3)[:120])
                k = lossless(v.a[1])
                want = f.params[int(cnt[1:])] if cnt[0] == "p" else mk("app", "DecomposedImage::num_channels", mk("*", f.params[0]))
                c.decide(True if k is want else False if num(k) is not None or find(k, lambda z: z is want) else None, "argument", where + " length",
                         "%s colours are read" % show(k, 3)[:120])
        img(c, f, x)


def img(c, f, x):
    """images made from the caller's bytes: exactly width * height * 3 of them"""
    fits = [l for l in f.log if l[0] == "fits"]
    for l in fits:
        L, w, h, n = l[2], l[3], l[4], l[5]
        want = imul(imul(cast(w, "u32", "usize"), cast(h, "u32", "usize")), const(n or 1, "int"))
        where = f.name + " input"
        if w in f.params and h in f.params:
            c.decide(f.params.index(w) == 0 and f.params.index(h) == 1, "input", where, "width and height come from parameters %d and %d" % (
                f.params.index(w), f.params.index(h)))
        if L is want:
            c.ok("input", where, "%d bytes per pixel" % n)
        elif lossless(L) is L and set(find(L, lambda q: q.op == "v")) <= set(f.params):
            c.bad("input", where, "reads %s bytes instead of %s" % (show(L, 4)[:140], show(want, 4)[:140]))
        else:
            c.unk("input", where, show(L, 4)[:160])
