"""Models of what the workspace calls in the standard library, nalgebra, nalgebra_sparse, image and good_lp.

A model says which of the inputs a result is made of. Anything without a model becomes an opaque operation on its
arguments, which the rules treat as 'not decided'."""
from terms import *
import terms as TM
from eng import *
import eng

M = {}


def model(*keys):
    def d(f):
        for k in keys:
            M[k] = f
        return f
    return d


def I0(n):
    return const(n, "int")


ONE, ZERO = I0(1), I0(0)
LESS, EQUAL, GREATER = agg("std::cmp::Ordering", 0), agg("std::cmp::Ordering", 1), agg("std::cmp::Ordering", 2)


# ---------------------------------------------------------------- types
def tyof(I, i):
    """the type behind references and boxes"""
    n = 0
    while isinstance(i, int):
        t = I.ty(i)
        if t["k"] in ("ref", "ptr"):
            i = t["e"]
        elif t["k"] == "adt" and t["n"] in ("std::boxed::Box", "alloc::boxed::Box"):
            i = t["a"][0]
        else:
            return t
        n += 1
        if n > 6:
            break
    return None


def dims(I, i):
    """(rows, columns) of a nalgebra matrix type, None where dynamic; None if it is no matrix"""
    t = tyof(I, i) if isinstance(i, int) else i
    if not t or t["k"] != "adt" or t["n"] not in ("nalgebra::Matrix", "nalgebra::base::matrix::Matrix"):
        return None
    r = []
    for a in t["a"][1:3]:
        x = I.ty(a)
        r.append(x["a"][0]["c"] if x["n"].endswith("Const") and isinstance(x["a"][0], dict) else None)
    return tuple(r)


def isview(I, i):
    t = tyof(I, i)
    return bool(t) and "ViewStorage" in I.ty(t["a"][3])["s"]


def elemtype(I, i):
    t = tyof(I, i)
    return t["a"][0]


def vec(v, n):
    """an opaque vector or fixed matrix spelled out by element"""
    if is_arr(v) or v is BOT:
        return v
    if v.op == "ite":
        return mapl(v, lambda x: vec(x, n))
    r, c = n if isinstance(n, tuple) else (n, 1)
    if r is None or c is None or r * c > 64:
        return v
    if v.op in ("seq", "empty"):
        return v
    return arr2(r, *[index(v, I0(i) if c == 1 else tup(I0(i % r), I0(i // r))) for i in range(r * c)])


def mptr(I, st, p):
    """pointer to the elements of the matrix p points to (views are pointers themselves)"""
    for _ in range(4):
        if p.op == "ref":
            v = I.load(st, p)
            if v.op in ("ref", "vr"):
                p = v
                continue
        elif p.op == "vr" and p.a[0].op in ("ref", "vr"):
            p = p.a[0]
            continue
        break
    return p


def mval(cx, i):
    """the matrix value of argument i (given by value, by reference or as a view), spelled out when its size is fixed"""
    v = cx.args[i]
    n = 0
    while v.op in ("ref", "vr") and n < 6:
        v = cx.load(v)
        n += 1
    if v.op == "ite" and any(x.op in ("ref", "vr") for x in leaves(v)):
        v = mapl(v, lambda x: cx.load(x) if x.op in ("ref", "vr") else x)
    t = cx.tys[i] if cx.tys else None
    d = dims(cx.I, t) if t is not None else None
    if v.op not in ("agg",) and t is not None and cx.I.ty(t)["k"] in ("ref", "ptr") and v is cx.args[i]:
        v = cx.load(v)
    if d and None not in d:
        v = vec(v, d)
    return v


def follow(cx, v, n=4):
    while v.op in ("ref", "vr") and n:
        v = cx.load(v)
        n -= 1
    return v


def sval(cx, i):
    """scalar argument, references followed by its type"""
    v = cx.args[i]
    t = cx.I.ty(cx.tys[i]) if cx.tys and cx.tys[i] is not None else None
    n = 0
    while t is not None and t["k"] in ("ref", "ptr") and n < 4:
        v = cx.load(v)
        t = cx.I.ty(t["e"])
        n += 1
    return v


def newloc(cx, name="t"):
    return mk("loc", "t", cx.fr, name)


# ---------------------------------------------------------------- iterators
def it(d, pos=ZERO):
    return itat(d, pos)


def endless(d):
    return d.op == "i:from" or d.op in ("i:map", "i:enum", "i:cloned", "i:inspect", "i:skip", "i:step") and endless(d.a[0]) or d.op == "i:zip" and endless(d.a[0]) and endless(d.a[1])


def D(op, *a):
    return mk("i:" + op, *a)


def itlen(I, st, d):
    """number of elements before filtering, or None"""
    o, a = d.op[2:], d.a
    if o == "range":
        n = isub(a[1], a[0])
        if num(n) is not None and num(n) < 0:
            return ZERO
        return n
    if o in ("src", "srcm"):
        return length(I.load(st, a[0]))
    if o == "srcv":
        return length(a[0])
    if o in ("map", "filter", "fmap", "enum", "rev", "cloned", "inspect"):
        return itlen(I, st, a[0])
    if o == "zip":
        x, y = itlen(I, st, a[0]), itlen(I, st, a[1])
        if x is None or y is None:
            return x if y is None else y
        if x is y:
            return x
        return imin(x, y)
    if o == "chain":
        x, y = itlen(I, st, a[0]), itlen(I, st, a[1])
        return None if x is None or y is None else iadd(x, y)
    if o == "once":
        return ONE
    if o == "empty":
        return ZERO
    if o == "n":
        return a[1]
    if o == "skip":
        x = itlen(I, st, a[0])
        if x is None:
            return None
        if num(x) is not None and num(a[1]) is not None:
            return I0(max(0, num(x) - num(a[1])))
        return isub(x, a[1])
    if o == "take":
        x = itlen(I, st, a[0])
        return a[1] if x is None else (x if x is a[1] else imin(x, a[1]))
    if o == "step":
        x = itlen(I, st, a[0])
        if x is None:
            return None
        if num(a[1]) == 1:
            return x
        return i2("/", iadd(x, isub(a[1], ONE)), a[1], "usize")
    if o == "pixels":
        return imul(imgw(a[0]), imgh(a[0]))
    if o in ("row", "prow"):
        return nrows(I.load(st, a[0]))
    if o in ("col",):
        return ncols(I.load(st, a[0]))
    if o == "pcolr":
        return a[2]
    if o == "mat":      # elements of a matrix in column-major order
        v = I.load(st, a[0])
        return matlen(v)
    if o == "chunks":
        L = length(I.load(st, a[0])) if a[0].op in ("ref", "vr", "ite") else None
        if L is None:
            return None
        if num(L) is not None and num(a[1]):
            n, m = int(num(L)), int(num(a[1]))
            return I0(n // m if a[2].op == "c" and a[2].a[0] else -(-n // m))
        return i2("/", L, a[1], "usize")
    if o == "flat":
        x = itlen(I, st, a[0])
        m = flatn(I, st, d)
        return imul(x, m) if x is not None and m is not None else None
    if o == "ents":
        return mlen(a[0])
    return None


_flatn = {}


def flatn(I, st, d):
    """the common number of elements of the parts of a flat_map when it is a constant"""
    f = d.a[1]
    s2 = st.clone()
    try:
        g, e = itelem(I, s2, mk("fr", mk("c", "flatn", "str"), d, 0), d.a[0], var("flatk", d))
        if g is not TRUE:
            return None
        inner = toiter(I, s2, I.apply(f, [e], s2, mk("fr", mk("c", "flatn", "str"), d, 1)) if f is not UNIT else e)
    except Abort:
        return None
    if inner.op != "it" or inner.a[1] is not ZERO:
        return None
    n = itlen(I, s2, inner.a[0])
    return n if n is not None and num(n) is not None and not filtered(inner.a[0]) else None


def filtered(d):
    return d.op in ("i:filter", "i:fmap", "i:tw", "i:opq") or any(type(x) is T and x.op.startswith("i:") and filtered(x) for x in d.a)


def imin(x, y):
    def f(x, y):
        a, b = num(x), num(y)
        if a is not None and b is not None:
            return I0(min(a, b))
        if x is y:
            return x
        c, d = lin_parts(isub(y, x))
        if not d:
            return x if c >= 0 else y
        p, q = (x, y) if x.id < y.id else (y, x)
        return mk("op", "imin", p, q)
    return map2(x, y, f)


def imax(x, y):
    def f(x, y):
        a, b = num(x), num(y)
        if a is not None and b is not None:
            return I0(max(a, b))
        if x is y:
            return x
        p, q = (x, y) if x.id < y.id else (y, x)
        return mk("op", "imax", p, q)
    return map2(x, y, f)


def matlen(v):
    if is_arr(v):
        return I0(len(v.a) - 2)
    if v.op == "ite":
        return mapl(v, matlen)
    if v.op in ("row",):
        return ncols(v.a[0])
    if v.op == "col":
        return nrows(v.a[0])
    if v.op in ("mat", "matmul", "fillm"):
        return imul(nrows(v), ncols(v))
    return length(v)


def itelem(I, st, fr, d, k):
    """(guard, element number k before filtering)"""
    o, a = d.op[2:], d.a
    f2 = lambda n: mk("fr", fr, "it", d, n)
    if o in ("range", "from"):
        return TRUE, iadd(a[0], k)
    if o in ("src", "srcm", "mat"):
        if o == "mat":
            v = I.load(st, a[0])
            if v.op not in ("agg", "row", "col", "seq", "sl", "ite", "idx", "f", "op"):
                if v.op in ("mat", "matmul", "fillm"):
                    nr = nrows(v)
                    return TRUE, vr(index(v, tup(i2("%", k, nr, "usize"), i2("/", k, nr, "usize"))))
        return TRUE, (I.sub(a[0], pi(k)) if k.op != "ite" else mapl(k, lambda j: I.sub(a[0], pi(j))))
    if o == "srcv":
        return TRUE, index(a[0], k)
    if o == "map":
        g, e = itelem(I, st, fr, a[0], k)
        return g, guarded(I, st, g, lambda: I.apply(a[1], [e], st, f2(1)))
    if o == "inspect":
        return itelem(I, st, fr, a[0], k)
    if o == "filter":
        g, e = itelem(I, st, fr, a[0], k)
        c = guarded(I, st, g, lambda: I.apply(a[1], [vr(e)], st, f2(2)))
        return And(g, as_bool(c)), e
    if o == "fmap":
        g, e = itelem(I, st, fr, a[0], k)
        r = guarded(I, st, g, lambda: I.apply(a[1], [e], st, f2(3))) if a[1] is not UNIT else e
        return And(g, issome(r)), fld(r, 0, 1)
    if o == "enum":
        g, e = itelem(I, st, fr, a[0], k)
        n = k if not filtered(a[0]) else mk("rank", a[0], k)
        return g, tup(n, e)
    if o == "zip":
        g1, e1 = itelem(I, st, fr, a[0], k)
        g2, e2 = itelem(I, st, fr, a[1], k)
        if filtered(a[0]) or filtered(a[1]):
            e1 = e1 if not filtered(a[0]) else mk("nth", a[0], k)
            e2 = e2 if not filtered(a[1]) else mk("nth", a[1], k)
            return TRUE, tup(e1, e2)
        return And(g1, g2), tup(e1, e2)
    if o == "chain":
        n = itlen(I, st, a[0])
        if n is None:
            return TRUE, mk("elem", d, k)
        c = ilt(k, n)
        if c is TRUE:
            return itelem(I, st, fr, a[0], k)
        if c is FALSE:
            return itelem(I, st, fr, a[1], isub(k, n))
        g1, e1 = itelem(I, st, fr, a[0], k)
        g2, e2 = itelem(I, st, fr, a[1], isub(k, n))
        return ite(c, g1, g2), ite(c, e1, e2)
    if o == "once":
        return TRUE, a[0]
    if o == "n":        # a function of the index
        return TRUE, subst(a[2], {a[0]: k})
    if o == "cloned":
        g, e = itelem(I, st, fr, a[0], k)
        return g, I.load(st, e)
    if o == "rev":
        n = itlen(I, st, a[0])
        if n is None:
            return TRUE, mk("elem", d, k)
        return itelem(I, st, fr, a[0], isub(isub(n, ONE), k))
    if o == "skip":
        return itelem(I, st, fr, a[0], iadd(k, a[1]))
    if o == "take":
        return itelem(I, st, fr, a[0], k)
    if o == "step":
        return itelem(I, st, fr, a[0], imul(k, a[1]))
    if o == "pixels":
        img = a[0]
        w = imgw(img)
        x, y = i2("%", k, w, "usize"), i2("/", k, w, "usize")
        x, y = cast(x, "usize", "u32"), cast(y, "usize", "u32")
        return TRUE, tup(x, y, pix(img, x, y))
    if o == "row":
        return TRUE, I.sub(a[0], mk("prow", k))
    if o == "col":
        return TRUE, I.sub(a[0], mk("pcol", k))
    if o == "pcolr":
        return TRUE, I.sub(a[0], mk("pcol", iadd(a[1], k)))
    if o == "chunks":
        s = imul(k, a[1])
        return TRUE, I.sub(a[0], mk("psl", s, iadd(s, a[1])))
    if o == "flat":
        m = flatn(I, st, d)
        if m is not None:
            q, r = (I0(num(k) // num(m)), I0(num(k) % num(m))) if num(k) is not None else (i2("/", k, m, "usize"), i2("%", k, m, "usize"))
            g, e = itelem(I, st, fr, a[0], q)
            inner = toiter(I, st, I.apply(a[1], [e], st, f2(4)) if a[1] is not UNIT else e)
            return itelem(I, st, fr, inner.a[0], r)
        return TRUE, mk("elem", d, k)
    if o == "ents":
        m, mode = a[0], a[1].a[0]
        key = mkey(m, k)
        if mode in ("keys", "set"):
            return TRUE, vr(key)
        if mode in ("into_keys", "ownset"):
            return TRUE, key
        v = mvalat(m, k)
        if mode == "into_values":
            return TRUE, v
        if mode == "values":
            return TRUE, vr(v)
        if mode == "own":
            return TRUE, tup(key, v)
        if mode in ("mut", "values_mut") and a[2].op == "ref":
            r = I.sub(a[2], mk("pm", key, v))
            return TRUE, tup(vr(key), r) if mode == "mut" else r
        return TRUE, tup(vr(key), vr(v))
    return TRUE, mk("elem", d, k)


def guarded(I, st, g, f):
    """evaluates f for its value under condition g, keeping its effects under that condition"""
    if g is TRUE:
        return f()
    if g is FALSE:
        return BOT
    old = st.clone()
    pc = st.pc
    st.pc = And(pc, g)
    v = f()
    if any(st.mem.get(l) is not x for l, x in old.mem.items()):
        old.pc = And(pc, Not(g))
        m = merge([st, old])
        st.mem = m.mem
    st.pc = pc
    return v


M["!itlen"] = itlen
M["!itelem"] = itelem
M["!endless"] = endless


def issome(v):
    def f(x):
        if x.op == "agg":
            return TRUE if x.a[1] == 1 else FALSE
        return lit(mk("is1", x))
    return as_bool(mapl(v, f))


def iserr(v):
    return issome(v)


def toiter(I, st, v, ty=None):
    """IntoIterator::into_iter of a value"""
    if v.op == "it":
        return v
    t = I.ty(ty) if isinstance(ty, int) else None
    if t is not None and t["k"] == "adt":
        n = t["n"].split("::")[-1]
        if n == "Range" and v.op == "agg":
            return it(D("range", v.a[2], v.a[3]))
        if n == "RangeInclusive" and v.op == "agg":
            return it(D("range", v.a[2], iadd(v.a[3], ONE)))
        if n == "RangeFrom" and v.op == "agg" and len(v.a) == 3:
            return it(D("from", v.a[2]))
        if n == "Option":
            return it(D("opt", v))
        if n in ("HashMap", "HashSet", "BTreeMap", "BTreeSet"):
            return it(ents(v, "ownset" if n.endswith("Set") else "own"))
    if v.op == "agg" and v.a[0] in ("std::ops::Range", "core::ops::Range"):
        return it(D("range", v.a[2], v.a[3]))
    if v.op == "agg" and v.a[0].endswith("RangeFrom") and len(v.a) == 3:
        return it(D("from", v.a[2]))
    if v.op == "agg" and v.a[0].endswith("RangeInclusive"):
        return it(D("range", v.a[2], iadd(v.a[3], ONE)))
    if v.op == "ite" and t is not None and t["k"] == "ref" and not t["m"] and dims(I, t["e"]) and None not in dims(I, t["e"]):
        d = dims(I, t["e"])
        return it(D("mat", vr(mapl(v, lambda x: vec(I.load(st, mptr(I, st, x)), d)))))
    if v.op in ("ref", "vr", "*"):
        if t is not None and t["k"] == "ref":
            e = I.ty(t["e"])
            if e["k"] == "adt" and e["n"].split("::")[-1] in ("HashMap", "HashSet", "BTreeMap", "BTreeSet"):
                return it(ents(I.load(st, v), "set" if e["n"].endswith("Set") else "mut" if t["m"] else "ref", v))
            if e["k"] == "adt" and (e["n"].split("::")[-1] in ("Map", "Filter", "Zip", "Enumerate", "Iter", "IntoIter", "Range", "Chain")):
                return it(D("by", v))
            if dims(I, t["e"]):
                return matiter(I, st, v, dims(I, t["e"]), t["m"])
        x = I.load(st, v)
        if x.op == "it":
            return it(D("by", v))
        return it(D("src", v))
    if v.op in ("seq", "empty", "wrs", "updi", "fill", "sl", "agg", "sorted"):
        if v.op == "agg" and v.a[0] != "arr":
            if v.a[0] in ("HashMap", "BTree"):
                return it(ents(v, "own"))
            return it(D("opq", v))
        return it(D("srcv", v))
    if v.op == "ite":
        ls = leaves(v)
        if all(x.op in ("seq", "empty", "agg") for x in ls) and all(x.op != "agg" or x.a[0] == "arr" for x in ls):
            return it(D("srcv", v))
        if all(x.op in ("ref", "vr") for x in ls):
            return it(D("src", v))
    if t is not None and t["k"] == "adt" and t["n"].split("::")[-1] in ("Vec", "Box"):
        return it(D("srcv", v))
    if t is not None and t["k"] == "array":
        return it(D("srcv", v))
    return it(D("opq", v))


def matiter(I, st, p, d, mut):
    """iterator over the elements of the matrix behind p"""
    p = mptr(I, st, p)
    v = I.load(st, p)
    if d and None not in d and not is_arr(v):
        w = vec(v, d)
        if not mut:
            return it(D("mat", vr(w)))
        if w is not v and p.op == "ref":
            I.store(st, p, w)
    return it(D("mat", p))


def selfit(cx, i=0):
    """the iterator argument i (by value)"""
    v = cx.args[i]
    t = cx.tys[i] if cx.tys else None
    return toiter(cx.I, cx.st, v, t)


def desc(cx, i=0):
    """descriptor of the iterator argument i, taking its position into account"""
    v = selfit(cx, i)
    if v.op == "ite":
        return D("opq", cx.pure(v))
    d, p = itparts(v)
    return d if p is ZERO else D("skip", d, p)


@model("std::iter::IntoIterator::into_iter")
def _(cx):
    return toiter(cx.I, cx.st, cx.args[0], cx.tys[0])


def adaptor(op):
    def f(cx):
        return it(D(op, desc(cx), *[cx.args[i] for i in range(1, len(cx.args))]))
    return f


for k, o in (("map", "map"), ("filter", "filter"), ("filter_map", "fmap"), ("enumerate", "enum"), ("rev", "rev"), ("skip", "skip"),
             ("take", "take"), ("step_by", "step"), ("flat_map", "flat"), ("cloned", "cloned"), ("copied", "cloned"), ("inspect", "inspect"),
             ("take_while", "tw"), ("skip_while", "opqs"), ("map_while", "opqs"), ("scan", "opqs"), ("peekable", "same"), ("fuse", "same"),
             ("by_ref", "byref")):
    M["std::iter::Iterator::" + k] = adaptor(o)


@model("std::iter::Iterator::peekable", "std::iter::Iterator::fuse")
def _(cx):
    return selfit(cx)


@model("std::iter::Iterator::by_ref")
def _(cx):
    return cx.args[0]


@model("std::iter::Iterator::zip", "std::iter::zip")
def _(cx):
    return it(D("zip", desc(cx), desc(cx, 1)))


@model("std::iter::Iterator::chain")
def _(cx):
    return it(D("chain", desc(cx), desc(cx, 1)))


@model("std::iter::Iterator::flatten")
def _(cx):
    d = desc(cx)
    if d.op != "i:opt":
        try:
            e = itelem(cx.I, cx.st.clone(), mk("fr", cx.fr, "flx"), d, var("flx", cx.fr))[1]
        except Abort:
            e = UNIT
        if all(l.op == "agg" and l.a[0].split("::")[-1] == "Option" for l in leaves(e)):
            return it(D("fmap", d, UNIT))
    return it(D("flat", d, UNIT))


@model("std::iter::once")
def _(cx):
    return it(D("once", cx.args[0]))


@model("std::iter::empty")
def _(cx):
    return it(D("empty"))


@model("std::iter::repeat")
def _(cx):
    k = var("rp", cx.fr)
    return it(D("opq", cx.args[0]))


@model("core::slice::iter", "core::slice::iter_mut", "std::slice::iter", "std::vec::Vec::iter")
def _(cx):
    return it(D("src", cx.args[0]))


@model("core::slice::chunks", "core::slice::chunks_exact", "core::slice::chunks_mut", "core::slice::chunks_exact_mut")
def _(cx):
    return it(D("chunks", cx.args[0], cx.args[1], TRUE if "exact" in cx.last else FALSE))


@model("std::vec::Vec::drain")
def _(cx):
    v = cx.val(0)
    cx.I.store(cx.st, cx.args[0], EMPTY)
    return it(D("srcv", v))


@model("std::iter::Iterator::next")
def m_next(cx):
    p = cx.args[0]
    I, st = cx.I, cx.st
    v = I.load(st, p)
    if v.op == "ite" and all(x.op == "it" and itparts(x)[0] is itparts(next(iter(leaves(v))))[0] for x in leaves(v)):
        d, pos = itparts(next(iter(leaves(v))))[0], mapl(v, lambda x: itparts(x)[1])
    else:
        if v.op != "it":
            v = toiter(I, st, v)
        d, pos = itparts(v)
    if d.op == "i:by":
        # an iterator over a borrowed iterator
        inner = mk("fr", cx.fr, "by")
        sub_ = Call(I, cx.callee, [d.a[0]], st, inner, [None], cx.retty)
        return m_next(sub_)
    n = itlen(I, st, d)
    if d.op in ("i:opt",):
        o = d.a[0]
        I.store(st, p, itat(d, iadd(pos, ONE)))
        return ite(And(ilt(pos, ONE), issome(o)), some(fld(o, 0, 1)), NONE)
    if n is None and (filtered(d) or d.op in ("i:flat",)):
        I.store(st, p, itat(d, iadd(pos, ONE)))
        more = lit(mk("more", cx.pure(d), pos))
        x = mk("elem", cx.pure(d), pos)
        return ite(more, some(x), NONE)
    more = ilt(pos, n) if n is not None else TRUE if endless(d) else lit(mk("more", cx.pure(d), pos))
    out = []
    res = BOT
    if more is FALSE:
        return NONE
    if filtered(d) and num(n) is not None and num(n) <= 12 and all(num(q) is not None for q in leaves(pos)):
        # first match among few
        got = {q: first_of(cx, d, int(num(q)), int(num(n)), q is pos) for q in leaves(pos)}
        I.store(st, p, mapl(mapl(pos, lambda q: got[q][0]), lambda q: itat(d, q)))
        return mapl(pos, lambda q: got[q][1])
    if pos.op == "ite":
        x = mapl(pos, lambda q: _at(cx, d, q, n))
        I.store(st, p, mapl(pos, lambda q: itat(d, iadd(q, ONE))))
        return x
    hold = {}

    def ev():
        hold["g"], e = itelem(I, st, mk("fr", cx.fr, "nx"), d, pos)
        return e
    e = guarded(I, st, more, ev)
    g = hold["g"]
    if g is not TRUE:
        lp = I.loops[-1] if I.loops else None
        if lp is not None and p.op == "ref" and lp["hdr"].get(p.a[0]) is v and len(p.a) == 1 and lp["k"] in pos.fv:
            # an element that does not pass the filter is a round without effect
            s2 = st.clone()
            s2.pc = And(st.pc, more, Not(g))
            I.store(s2, p, itat(d, iadd(pos, ONE)))
            lp["skips"].append(s2)
            st.pc = And(st.pc, Or(Not(more), g))
            I.store(st, p, itat(d, iadd(pos, ONE)))
            return ite(more, some(e), NONE)
        if lp is not None and p.op == "ref" and len(p.a) == 1 and p.a[0] in lp["hdr"]:
            # not yet known to be the iterator of a loop: provisional
            I.store(st, p, itat(d, iadd(pos, ONE)))
            return ite(And(more, g), some(e), NONE)
        # find the first
        k = var("nxk", cx.fr)
        g2, e2 = itelem(I, st, mk("fr", cx.fr, "nxk"), d, iadd(pos, k))
        N = isub(n, pos) if n is not None else mk("rounds", d)
        E = lit(bind("ex", [k], gen(N), g2))
        kx = bind("first", [k], gen(N), g2)
        I.store(st, p, itat(d, iadd(iadd(pos, kx), ONE)))
        return ite(E, some(subst(e2, {k: kx})), NONE)
    I.store(st, p, itat(d, iadd(pos, ONE)))
    return ite(more, some(e), NONE)


def first_of(cx, d, q, n, effects):
    """(new position, the first element at q or later that passes)"""
    I, st = cx.I, cx.st if effects else cx.st.clone()
    items, none = [], TRUE
    for j in range(q, n):
        # reached only when no earlier element passed
        got = {}

        def one():
            got["g"], e_ = itelem(I, st, mk("fr", cx.fr, "nx", j), d, I0(j))
            return e_
        e = guarded(I, st, none, one)
        if not got:
            break
        items.append((j, got["g"], e))
        none = And(none, Not(got["g"]))
    newpos, val = I0(n), NONE
    for j, g, e in reversed(items):
        newpos = ite(g, I0(j + 1), newpos)
        val = ite(g, some(e), val)
    return newpos, val


def _at(cx, d, q, n):
    if n is not None and ilt(q, n) is FALSE:
        return NONE
    g, e = itelem(cx.I, cx.st, mk("fr", cx.fr, "nx", q), d, q)
    c = And(g, ilt(q, n)) if n is not None else g
    return ite(c, some(e), NONE)


@model("std::iter::ExactSizeIterator::len", "std::iter::Iterator::count")
def _(cx):
    v = cx.args[0]
    if v.op in ("ref", "vr"):
        v = cx.load(v)
    v = toiter(cx.I, cx.st, v, None)
    if v.op != "it":
        return NotImplemented
    d, pos = itparts(v)
    if filtered(d):
        seq_ = collect(cx, d if pos is ZERO else D("skip", d, pos))
        return length(seq_)
    n = itlen(cx.I, cx.st, d)
    return mk("len", cx.pure(d)) if n is None else isub(n, pos)


def collect(cx, d, f=None):
    """the sequence of the elements (after f)"""
    I, st = cx.I, cx.st
    if d.op == "i:srcv" and f is None:
        return d.a[0]
    if d.op == "i:cloned" and d.a[0].op in ("i:src",) and f is None:
        return I.load(st, d.a[0].a[0])
    acc = newloc(cx, mk("acc", d))
    st.mem[acc] = EMPTY
    collect_into(cx, d, acc, f)
    return st.mem.pop(acc)


def collect_into(cx, d, acc, f=None):
    """structural: chains and flat maps are collected part by part"""
    I, st = cx.I, cx.st
    if d.op == "i:chain":
        collect_into(cx, d.a[0], acc, f)
        collect_into(cx, d.a[1], acc, f)
        return
    if d.op == "i:map" and d.a[0].op in ("i:chain", "i:flat"):
        g = d.a[1]

        def f2(s, e, fr):
            r = I.apply(g, [e], s, mk("fr", fr, "mp"))
            return f(s, r, fr) if f else r
        collect_into(cx, d.a[0], acc, f2)
        return
    if d.op == "i:cloned" and d.a[0].op in ("i:chain", "i:flat"):
        collect_into(cx, d.a[0], acc, lambda s, e, fr: f(s, I.load(s, e), fr) if f else I.load(s, e))
        return
    if d.op == "i:flat" and flatn(I, st, d) is None or d.op == "i:flat":
        def body(s, e, k, fr):
            inner = I.apply(d.a[1], [e], s, mk("fr", fr, "fl")) if d.a[1] is not UNIT else e
            inner = toiter(I, s, inner)
            if inner.op != "it":
                s.mem[acc] = seq(s.mem[acc], mk("many", inner))
                return None
            dd, pp = itparts(inner)
            c2 = Call(I, cx.callee, [], s, mk("fr", fr, "in"), [], None)
            collect_into(c2, dd if pp is ZERO else D("skip", dd, pp), acc, f)
            return None
        done, stop = I.each(st, cx.fr, d.a[0], body, "col")
        setst(st, done)
        return

    def body(s, e, k, fr):
        r = f(s, e, mk("fr", fr, "f")) if f else e
        s.mem[acc] = seq(s.mem[acc], one(r))
        return None
    if d.op == "i:opt":
        o = d.a[0]
        st.mem[acc] = seq(st.mem[acc], one(fld(o, 0, 1), issome(o)))
        return
    done, stop = I.each(st, cx.fr, d, body, mk("nm", "col", d))
    setst(st, done)


def setst(st, s):
    if s is None:
        st.pc = FALSE
        return
    st.mem = s.mem
    st.pc = s.pc


def each(cx, d, f, name):
    return cx.I.each(cx.st, cx.fr, d, f, name)


@model("std::iter::Iterator::collect")
def m_collect(cx):
    d = desc(cx)
    return build(cx, d, cx.retty)


@model("std::iter::FromIterator::from_iter")
def _(cx):
    return build(cx, desc(cx), cx.retty)


def build(cx, d, ty):
    I, st = cx.I, cx.st
    t = I.ty(ty)
    n = t["n"].split("::")[-1] if t["k"] == "adt" else ""
    h = I.models.get("!collect:" + (t["n"] if t["k"] == "adt" else ""))
    if h:
        return h(cx, d, ty)
    if n in ("Vec", "VecDeque") or n == "Box":
        return collect(cx, d)
    if n in ("HashMap", "BTreeMap", "HashSet", "BTreeSet"):
        return agg("HashMap" if n.startswith("Hash") else "BTree", 0, collect(cx, d))
    if n in ("Result", "Option") and t["a"]:
        s = collect(cx, d)
        inner = lambda e: fld(e, 0, 0 if n == "Result" else 1)
        b, ss = segs_of(s)
        if b is EMPTY and all(x.op == "one" for x in ss):
            bad = FALSE
            firstbad = BOT
            for x in reversed(ss):
                c = iserr(x.a[1]) if n == "Result" else Not(issome(x.a[1]))
                c = And(x.a[0], c)
                firstbad = ite(c, x.a[1], firstbad)
                bad = Or(bad, c)
            good = seq(EMPTY, *[one(inner(x.a[1]), x.a[0]) for x in ss])
        elif b is EMPTY and len(ss) == 1 and ss[0].op == "rep":
            vs, body = open_(ss[0])
            e = body[1:]
            if all(x.op == "one" for x in e):
                c = FALSE
                for x in e:
                    c = Or(c, And(x.a[0], iserr(x.a[1]) if n == "Result" else Not(issome(x.a[1]))))
                bad = lit(bind("ex", vs, body[0], c))
                kx = bind("first", vs, body[0], c)
                firstbad = subst(e[0].a[1], {vs[0]: kx})
                good = seq(EMPTY, rep(vs[0], body[0], [one(inner(x.a[1]), x.a[0]) for x in e]))
            else:
                return mk("app", "collect:" + n, s)
        else:
            return mk("app", "collect:" + n, s)
        if n == "Result":
            return ite(bad, err(fld(firstbad, 0, 1)), ok(good))
        return ite(bad, NONE, some(good))
    c = Call(I, cx.callee, cx.args, st, cx.fr, cx.tys, cx.retty)
    if n == "String":
        return mk("app", "collect:String", cx.pure(collect(cx, d)))
    # a FromIterator of the workspace
    for b in I.d["bodies"]:
        if b["name"].endswith("FromIterator>::from_iter") or "::from_iter" in b["name"]:
            rt = b["locals"][0]
            at = I.ty(b["locals"][1])
            if rt == ty:
                want = cx.tystr(0)
                if I.tystr(b["locals"][1]) == want:
                    return I.run(b, [it(d)], st, cx.fr)
    return mk("app", "collect:" + t["s"], cx.pure(collect(cx, d)))


@model("std::iter::Extend::extend", "std::vec::Vec::extend_from_slice", "std::vec::Vec::append")
def _(cx):
    I, st = cx.I, cx.st
    p = cx.args[0]
    d = desc(cx, 1)
    old = I.load(st, p)
    isref = cx.tys[1] is not None and ("extend" == cx.last)
    acc = newloc(cx, "ext")
    st.mem[acc] = EMPTY
    vt = tyof(I, cx.tys[0])
    et = I.ty(vt["a"][0]) if vt and vt.get("a") else None
    copy = et is not None and et["k"] not in ("ref", "ptr")
    collect_into(cx, d, acc, lambda s, e, fr: I.load(s, e) if copy and e.op in ("ref", "vr") else e)
    add = st.mem.pop(acc)
    b, ss = segs_of(add)
    if old.op == "agg" and old.a[0] == "HashMap":
        b0, s0 = segs_of(old.a[2])
        I.store(st, p, agg("HashMap", 0, seq(old.a[2], *ss)))
        return UNIT
    if b is not EMPTY:
        ss = [mk("many", b)] + ss
    I.store(st, p, seq(old, *ss))
    return UNIT


def stopfirst(cx, d, f, name):
    """iterates until f(state, element, k, fr) -> (condition, value on stop); returns (state, stopped, value)"""
    I, st = cx.I, cx.st
    acc = newloc(cx, mk("val", name))
    st.mem[acc] = BOT
    pc0 = st.pc

    def body(s, e, k, fr):
        c, v = f(s, e, k, fr)
        if c is not FALSE:
            s.mem[acc] = v
        return c
    done, stop = I.each(st, cx.fr, d, body, name)
    if done is None and stop is None:
        st.pc = FALSE
        return FALSE, BOT
    if stop is None:
        setst(st, done)
        st.mem.pop(acc, None)
        return FALSE, BOT
    v = stop.mem.pop(acc)
    if done is None:
        setst(st, stop)
        return TRUE, v
    done.mem.pop(acc, None)
    tot = Or(done.pc, stop.pc)
    c = restrict(stop.pc, tot)
    c = restrict(c, pc0)
    setst(st, merge([done, stop]))
    return c, v


@model("std::iter::Iterator::any", "std::iter::Iterator::all")
def _(cx):
    every = cx.last == "all"
    I = cx.I
    p = cx.args[0]
    v = I.load(cx.st, p) if p.op in ("ref", "vr") else p
    v = toiter(I, cx.st, v)
    d, pos = itparts(v)
    if pos is not ZERO:
        d = D("skip", d, pos)

    def f(s, e, k, fr):
        c = as_bool(I.apply(cx.args[1], [e], s, mk("fr", fr, "p")))
        return (Not(c) if every else c), TRUE
    c, _ = stopfirst(cx, d, f, "any")
    return Not(c) if every else c


@model("std::iter::Iterator::find", "std::iter::Iterator::position", "std::iter::Iterator::find_map")
def _(cx):
    I = cx.I
    p = cx.args[0]
    v = I.load(cx.st, p) if p.op in ("ref", "vr") else p
    v = toiter(I, cx.st, v)
    d, pos = itparts(v)
    if pos is not ZERO:
        d = D("skip", d, pos)
    last = cx.last

    def f(s, e, k, fr):
        a = vr(e) if last == "find" else e
        r = I.apply(cx.args[1], [a], s, mk("fr", fr, "p"))
        if last == "find_map":
            return issome(r), fld(r, 0, 1)
        kk = k if not filtered(d) else mk("rank", d, k)
        return as_bool(r), (e if last == "find" else kk)
    c, x = stopfirst(cx, d, f, last)
    return ite(c, some(x), NONE)


@model("std::iter::Iterator::for_each")
def _(cx):
    I = cx.I

    def f(s, e, k, fr):
        I.apply(cx.args[1], [e], s, mk("fr", fr, "p"))
        return None
    done, _ = each(cx, desc(cx), f, "fe")
    setst(cx.st, done)
    return UNIT


@model("std::iter::Iterator::fold")
def _(cx):
    I, st = cx.I, cx.st
    acc = newloc(cx, "fold")
    st.mem[acc] = cx.args[1]

    def f(s, e, k, fr):
        s.mem[acc] = I.apply(cx.args[2], [s.mem[acc], e], s, mk("fr", fr, "p"))
        return None
    done, _ = each(cx, desc(cx), f, "fold")
    setst(st, done)
    return st.mem.pop(acc)


@model("std::iter::Iterator::sum")
def _(cx):
    I, st = cx.I, cx.st
    acc = newloc(cx, "sum")
    t = I.ty(cx.retty)
    fl = t["k"] == "float"
    if t["k"] not in ("float", "int", "uint"):
        return mk("app", "sum", cx.pure(collect(cx, desc(cx))))
    st.mem[acc] = const(0.0, "f64") if fl else ZERO

    def f(s, e, k, fr):
        n = 0
        while e.op in ("ref", "vr"):
            e = I.load(s, e)
        s.mem[acc] = fop("f+", s.mem[acc], e) if fl else iadd(s.mem[acc], e)
        return None
    done, _ = each(cx, desc(cx), f, "sum")
    setst(st, done)
    return st.mem.pop(acc)


def deref(cx, v):
    n = 0
    while v.op in ("ref", "vr") and n < 4:
        v = cx.load(v)
        n += 1
    return cx.pure(v)


@model("std::iter::Iterator::min_by", "std::iter::Iterator::max_by", "std::iter::Iterator::min_by_key", "std::iter::Iterator::max_by_key",
       "std::iter::Iterator::min", "std::iter::Iterator::max")
def _(cx):
    I, st = cx.I, cx.st
    which = cx.last[:3]
    d = desc(cx)
    s = collect(cx, d)
    x, y = var("ax", cx.fr), var("ay", cx.fr)
    s2 = st.clone()

    def compare(x, y):
        if cx.last.endswith("_key"):
            return mk("cmp", I.apply(cx.args[1], [vr(x)], s2, mk("fr", cx.fr, "cx")), I.apply(cx.args[1], [vr(y)], s2, mk("fr", cx.fr, "cy")))
        if cx.last.endswith("_by"):
            return I.apply(cx.args[1], [vr(x), vr(y)], s2, mk("fr", cx.fr, "c"))
        return mk("cmp", x, y)
    base, sg = eng.segs_of(s)
    if base is EMPTY and len(sg) == 1 and sg[0].op == "rep":
        vs, body = eng.open_(sg[0])
        if len(vs) == 1 and len(body) == 2 and body[1].op == "one":
            # the comparison of two elements, and the key it goes by
            k1, k2 = vs[0], var("k2", cx.fr)
            g, cond, e = body[0], body[1].a[0], body[1].a[1]
            c = compare(e, subst(e, {k1: k2}))
            while c.op == "vr":
                c = c.a[0]
            if c.op == "cmp" and subst(c.a[0], {k1: k2}) is c.a[1] and k2 not in c.a[0].fv:
                b = bind("best", [k1], mk("c", which, "str"), g, cond, deref(cx, c.a[0]))
            elif c.op == "cmp" and subst(c.a[0], {k2: k1}) is c.a[1] and k1 not in c.a[0].fv:
                b = bind("best", [k1], mk("c", which + " reversed", "str"), g, cond, deref(cx, c.a[1]))
            else:
                b = bind("best2", [k1, k2], mk("c", which, "str"), g, cond, cx.pure(c))
            n = length(s)
            return ite(Not(eq(n, ZERO)) if num(n) is None else (TRUE if num(n) else FALSE), some(subst(e, {k1: b})), NONE)
    if cx.last.endswith("_key"):
        kx = I.apply(cx.args[1], [vr(x)], s2, mk("fr", cx.fr, "cx"))
        ky = I.apply(cx.args[1], [vr(y)], s2, mk("fr", cx.fr, "cy"))
        c = mk("cmp", kx, ky)
    elif cx.last.endswith("_by"):
        c = I.apply(cx.args[1], [vr(x), vr(y)], s2, mk("fr", cx.fr, "c"))
    else:
        c = mk("cmp", x, y)
    ps = cx.pure(s)
    if cx.last in ("min", "max") and base is EMPTY and all(g.op == "one" and g.a[0] is TRUE for g in sg):
        es = [deref(cx, g.a[1]) for g in sg]
        if sg and all(type(num(e)) is int for e in es):
            return some(sg[[num(e) for e in es].index((min if which == "min" else max)(num(e) for e in es))].a[1])
    b = bind("argbest", [x, y], mk("c", which, "str"), ps, c)
    n = length(s)
    return ite(Not(eq(n, ZERO)) if num(n) is None else (TRUE if num(n) else FALSE), some(index(s, b)), NONE)


@model("std::iter::Iterator::last")
def _(cx):
    s = collect(cx, desc(cx))
    n = length(s)
    return ite(Not(eq(n, ZERO)), some(index(s, isub(n, ONE))), NONE)


@model("std::iter::Iterator::nth")
def _(cx):
    I, st = cx.I, cx.st
    p = cx.args[0]
    v = I.load(st, p)
    if v.op != "it" or filtered(itparts(v)[0]):
        return NotImplemented
    d, pos = itparts(v)
    I.store(st, p, itat(d, iadd(pos, cx.args[1])))
    return m_next(Call(I, cx.callee, [p], st, cx.fr, [None], cx.retty))


@model("std::iter::Iterator::unzip")
def _(cx):
    s = collect(cx, desc(cx))
    return tup(mapseq(s, lambda e: fld(e, 0)), mapseq(s, lambda e: fld(e, 1)))


def mapseq(s, f):
    """f applied to every element of a sequence value"""
    if s.op == "ite":
        return mapl(s, lambda x: mapseq(x, f))
    if is_arr(s):
        return arr2(s.a[1], *[f(x) for x in s.a[2:]])
    b, ss = segs_of(s)
    if b is not EMPTY:
        return mk("mapseq", s, bind("lam", [var("ms", s)], f(var("ms", s))))
    return seq(EMPTY, *[mapseg(x, f) for x in ss]) if ss else s


def mapseg(x, f):
    if x.op == "one":
        return mk("one", x.a[0], f(x.a[1]))
    if x.op == "rep":
        vs, body = open_(x)
        return bind("rep", vs, body[0], *[mapseg(y, f) for y in body[1:]])
    return mk("mapseg", x)


# ---------------------------------------------------------------- Option, Result, ?
@model("std::option::Option::unwrap", "std::option::Option::expect")
def _(cx):
    g = issome(cx.args[0])
    if g is not TRUE:
        cx.I.log.append(("unwrap", cx.st.pc, g))
    return fld(cx.args[0], 0, 1)


@model("std::option::Option::unwrap_unchecked")
def _(cx):
    return fld(cx.args[0], 0, 1)


@model("std::result::Result::unwrap", "std::result::Result::expect")
def _(cx):
    return fld(cx.args[0], 0, 0)


@model("std::option::Option::is_some", "std::result::Result::is_err")
def _(cx):
    return issome(follow(cx, cx.args[0]))


@model("std::option::Option::is_none", "std::result::Result::is_ok")
def _(cx):
    return Not(issome(follow(cx, cx.args[0])))


def opt(cx, x, yes, no):
    """choice by whether x is Some"""
    c = issome(x)
    a = guarded(cx.I, cx.st, c, lambda: yes(fld(x, 0, 1))) if c is not FALSE else BOT
    b = guarded(cx.I, cx.st, Not(c), no) if c is not TRUE else BOT
    return ite(c, a, b)


def ap(cx, f, *vs):
    return cx.I.apply(f, list(vs), cx.st, mk("fr", cx.fr, "ap"))


@model("std::option::Option::map")
def _(cx):
    return opt(cx, cx.args[0], lambda v: some(ap(cx, cx.args[1], v)), lambda: NONE)


@model("std::option::Option::and_then")
def _(cx):
    return opt(cx, cx.args[0], lambda v: ap(cx, cx.args[1], v), lambda: NONE)


@model("std::option::Option::filter")
def _(cx):
    x = cx.args[0]
    c = issome(x)
    g = guarded(cx.I, cx.st, c, lambda: as_bool(ap(cx, cx.args[1], vr(fld(x, 0, 1)))))
    return ite(And(c, g), x, NONE)


@model("std::option::Option::map_or")
def _(cx):
    return opt(cx, cx.args[0], lambda v: ap(cx, cx.args[2], v), lambda: cx.args[1])


@model("std::option::Option::map_or_else")
def _(cx):
    return opt(cx, cx.args[0], lambda v: ap(cx, cx.args[2], v), lambda: ap(cx, cx.args[1]))


@model("std::option::Option::is_some_and")
def _(cx):
    return opt(cx, cx.args[0], lambda v: as_bool(ap(cx, cx.args[1], v)), lambda: FALSE)


@model("std::option::Option::unwrap_or")
def _(cx):
    return opt(cx, cx.args[0], lambda v: v, lambda: cx.args[1])


@model("std::option::Option::unwrap_or_else")
def _(cx):
    return opt(cx, cx.args[0], lambda v: v, lambda: ap(cx, cx.args[1]))


@model("std::option::Option::unwrap_or_default")
def _(cx):
    return opt(cx, cx.args[0], lambda v: v, lambda: mk("app", "default"))


@model("std::option::Option::or")
def _(cx):
    return opt(cx, cx.args[0], lambda v: some(v), lambda: cx.args[1])


@model("std::option::Option::or_else")
def _(cx):
    return opt(cx, cx.args[0], lambda v: some(v), lambda: ap(cx, cx.args[1]))


@model("std::option::Option::ok_or")
def _(cx):
    return opt(cx, cx.args[0], lambda v: ok(v), lambda: err(cx.args[1]))


@model("std::option::Option::ok_or_else")
def _(cx):
    return opt(cx, cx.args[0], lambda v: ok(v), lambda: err(ap(cx, cx.args[1])))


@model("std::option::Option::cloned", "std::option::Option::copied")
def _(cx):
    return opt(cx, cx.args[0], lambda v: some(cx.I.load(cx.st, v)), lambda: NONE)


@model("std::option::Option::as_ref", "std::option::Option::as_mut", "std::option::Option::as_deref", "std::option::Option::as_deref_mut")
def _(cx):
    p = cx.args[0]
    x = cx.load(p)
    return ite(issome(x), some(cx.I.sub(p, pf(0, 1))), NONE)


@model("std::option::Option::take")
def _(cx):
    p = cx.args[0]
    x = cx.load(p)
    cx.I.store(cx.st, p, NONE)
    return x


@model("std::option::Option::replace")
def _(cx):
    p = cx.args[0]
    x = cx.load(p)
    cx.I.store(cx.st, p, some(cx.args[1]))
    return x


@model("std::option::Option::insert", "std::option::Option::get_or_insert")
def _(cx):
    p = cx.args[0]
    cx.I.store(cx.st, p, some(cx.args[1]))
    return cx.I.sub(p, pf(0, 1))


def res(cx, x, good, bad):
    c = iserr(x)
    b = guarded(cx.I, cx.st, c, lambda: bad(fld(x, 0, 1))) if c is not FALSE else BOT
    a = guarded(cx.I, cx.st, Not(c), lambda: good(fld(x, 0, 0))) if c is not TRUE else BOT
    return ite(c, b, a)


@model("std::result::Result::map_err")
def _(cx):
    return res(cx, cx.args[0], lambda v: ok(v), lambda e: err(ap(cx, cx.args[1], e)))


@model("std::result::Result::map")
def _(cx):
    return res(cx, cx.args[0], lambda v: ok(ap(cx, cx.args[1], v)), lambda e: err(e))


@model("std::result::Result::and_then")
def _(cx):
    return res(cx, cx.args[0], lambda v: ap(cx, cx.args[1], v), lambda e: err(e))


@model("std::result::Result::ok")
def _(cx):
    return res(cx, cx.args[0], lambda v: some(v), lambda e: NONE)


@model("std::result::Result::err")
def _(cx):
    return res(cx, cx.args[0], lambda v: NONE, lambda e: some(e))


@model("std::result::Result::unwrap_or")
def _(cx):
    return res(cx, cx.args[0], lambda v: v, lambda e: cx.args[1])


@model("std::result::Result::unwrap_or_else")
def _(cx):
    return res(cx, cx.args[0], lambda v: v, lambda e: ap(cx, cx.args[1], e))


@model("std::result::Result::as_ref")
def _(cx):
    p = cx.args[0]
    x = cx.load(p)
    return ite(iserr(x), err(cx.I.sub(p, pf(0, 1))), ok(cx.I.sub(p, pf(0, 0))))


CF = "std::ops::ControlFlow"


@model("std::ops::Try::branch")
def _(cx):
    x = cx.args[0]
    t = cx.I.ty(cx.tys[0])
    if t["n"].endswith("Option"):
        return ite(issome(x), agg(CF, 0, fld(x, 0, 1)), agg(CF, 1, NONE))
    if t["n"].endswith("Result"):
        return ite(iserr(x), agg(CF, 1, err(fld(x, 0, 1))), agg(CF, 0, fld(x, 0, 0)))
    return NotImplemented


@model("std::ops::FromResidual::from_residual")
def _(cx):
    x = cx.args[0]
    t = cx.I.ty(cx.retty)
    if t["n"].endswith("Option"):
        return NONE
    e = fld(x, 0, 1)
    return err(mk("app", "into", cx.pure(e)))


# ---------------------------------------------------------------- Vec, slices, boxes
@model("std::vec::Vec::new", "std::vec::Vec::with_capacity", "std::default::Default::default", "std::string::String::new")
def _(cx):
    t = cx.I.ty(cx.retty) if cx.retty is not None else None
    if t is not None and t["k"] == "adt" and t["n"].split("::")[-1] == "Vec":
        return EMPTY
    return NotImplemented


@model("std::vec::from_elem")
def _(cx):
    return mk("fill", cx.args[1], cx.args[0])


@model("std::vec::Vec::push")
def _(cx):
    p = cx.args[0]
    cx.I.store(cx.st, p, seq(cx.load(p), one(cx.args[1])))
    return UNIT


@model("std::vec::Vec::pop")
def _(cx):
    p = cx.args[0]
    v = cx.load(p)
    b, ss = segs_of(v)
    if ss and ss[-1].op == "one" and ss[-1].a[0] is TRUE:
        cx.I.store(cx.st, p, seq(b, *ss[:-1]))
        return some(ss[-1].a[1])
    return NotImplemented


@model("std::vec::Vec::reserve", "std::vec::Vec::shrink_to_fit", "std::vec::Vec::reserve_exact")
def _(cx):
    return UNIT


@model("std::vec::Vec::clear")
def _(cx):
    cx.I.store(cx.st, cx.args[0], EMPTY)
    return UNIT


@model("std::vec::Vec::len", "core::slice::len", "core::str::len", "std::string::String::len", "std::slice::len")
def _(cx):
    v = sval(cx, 0)
    return length(v)


@model("std::vec::Vec::is_empty", "core::slice::is_empty", "core::str::is_empty")
def _(cx):
    return eq(length(sval(cx, 0)), ZERO)


@model("std::vec::Vec::into_boxed_slice", "std::slice::into_vec", "std::vec::Vec::into_iter", "std::boxed::Box::new", "std::convert::identity",
       "std::hint::must_use", "std::boxed::Box::pin", "std::hint::black_box")
def _(cx):
    return cx.args[0]


@model("std::vec::Vec::as_slice", "std::vec::Vec::as_mut_slice", "std::vec::Vec::as_ptr", "core::slice::as_ptr", "core::slice::as_mut_ptr",
       "std::vec::Vec::as_mut_ptr", "std::string::String::as_str", "std::borrow::Borrow::borrow", "std::borrow::BorrowMut::borrow_mut")
def _(cx):
    return cx.args[0]


@model("std::slice::to_vec", "core::slice::to_vec", "std::borrow::ToOwned::to_owned")
def _(cx):
    return sval(cx, 0)


@model("core::slice::get", "core::slice::get_mut", "core::slice::get_unchecked", "nalgebra::indexing::get", "nalgebra::indexing::get_mut")
def _(cx):
    p, i = cx.args[0], cx.args[1]
    if cx.key.startswith("nalgebra"):
        p = mptr(cx.I, cx.st, p)
        v = cx.load(p)
        d = dims(cx.I, cx.tys[0])
        if d and None not in d:
            return some(cx.I.sub(p, pi(linear(i, d))))
        return some(cx.I.sub(p, pi(i)))
    r = idxptr(cx, p, i, cx.tys[1])
    if cx.last == "get_unchecked":
        return r
    if i.op == "agg":
        return mk("app", "get", cx.pure(p), i)
    n = length(cx.load(p))
    return ite(ilt(i, n), some(r), NONE)


@model("core::slice::first", "core::slice::last")
def _(cx):
    p = cx.args[0]
    n = length(cx.load(p))
    i = ZERO if cx.last == "first" else isub(n, ONE)
    return ite(Not(eq(n, ZERO)), some(cx.I.sub(p, pi(i))), NONE)


@model("core::slice::split_first", "core::slice::split_first_mut")
def _(cx):
    p = cx.args[0]
    n = length(cx.load(p))
    return ite(Not(eq(n, ZERO)), some(tup(cx.I.sub(p, pi(ZERO)), cx.I.sub(p, mk("psl", ONE, n)))), NONE)


@model("core::slice::split_at", "core::slice::split_at_mut")
def _(cx):
    p, m = cx.args[0], cx.args[1]
    n = length(cx.load(p))
    return tup(cx.I.sub(p, mk("psl", ZERO, m)), cx.I.sub(p, mk("psl", m, n)))


@model("core::slice::swap")
def _(cx):
    p, i, j = cx.args
    a, b = cx.I.sub(p, pi(i)), cx.I.sub(p, pi(j))
    x, y = cx.load(a), cx.load(b)
    cx.I.store(cx.st, a, y)
    cx.I.store(cx.st, b, x)
    return UNIT


@model("core::slice::fill")
def _(cx):
    p = cx.args[0]
    v = cx.load(p)
    n = length(v)
    if num(n) is not None and num(n) <= 64:
        cx.I.store(cx.st, p, arr2(v.a[1] if is_arr(v) else int(num(n)), *([cx.args[1]] * int(num(n)))))
    else:
        cx.I.store(cx.st, p, mk("fill", n, cx.args[1]))
    return UNIT


@model("std::ops::RangeInclusive::new", "core::ops::RangeInclusive::new")
def _(cx):
    return agg("std::ops::RangeInclusive", 0, cx.args[0], cx.args[1], FALSE)


def within(cx, lo, hi, strict):
    """whether an interval contains a value"""
    x = cx.val(1)
    t = tyof(cx.I, cx.tys[1]) if cx.tys and cx.tys[1] is not None else None
    if t is None or t["k"] not in ("float", "int", "uint", "char"):
        return None
    lt = flt if t["k"] == "float" else ilt
    le = fle if t["k"] == "float" else lambda a, b: Not(ilt(b, a))
    return And(le(lo, x), (lt if strict else le)(x, hi))


@model("std::ops::RangeInclusive::contains")
def _(cx):
    v = cx.load(cx.args[0])
    if v.op != "agg":
        return None
    return within(cx, v.a[2], v.a[3], False)


@model("std::ops::Range::contains")
def _(cx):
    v = cx.load(cx.args[0])
    if v.op != "agg":
        return None
    return within(cx, v.a[2], v.a[3], True)


@model("core::slice::contains")
def _(cx):
    v = sval(cx, 0)
    x = follow(cx, cx.args[1], 1)
    n = num(length(v))
    if n is not None and n <= 16:
        r = FALSE
        for i in range(int(n)):
            r = Or(r, eq(index(v, I0(i)), x))
        return r
    k = var("ck", cx.fr)
    return lit(bind("ex", [k], gen(length(v)), eq(index(v, k), x)))


@model("core::slice::copy_from_slice", "core::slice::clone_from_slice")
def _(cx):
    v = sval(cx, 1)
    cx.I.log.append(("copy", cx.st.pc, cx.args[0], v, length(cx.load(cx.args[0])), length(v)))
    cx.I.store(cx.st, cx.args[0], v)
    return UNIT


@model("std::slice::sort_by_key", "core::slice::sort_unstable_by_key", "core::slice::sort_by_key", "std::slice::sort_by_cached_key")
def _(cx):
    I, st = cx.I, cx.st
    p = cx.args[0]
    v = cx.load(p)
    x = var("sx", cx.fr)
    k = I.apply(cx.args[1], [vr(x)], st.clone(), mk("fr", cx.fr, "key"))
    k = Call(I, cx.callee, [], st, cx.fr, [], None).pure(k)
    cx.I.store(st, p, bind("sorted", [x], v, k, const("key", "str")))
    return UNIT


@model("std::slice::sort_by", "core::slice::sort_unstable_by", "core::slice::sort_by")
def _(cx):
    I, st = cx.I, cx.st
    p = cx.args[0]
    v = cx.load(p)
    x, y = var("sx", cx.fr), var("sy", cx.fr)
    k = I.apply(cx.args[1], [vr(x), vr(y)], st.clone(), mk("fr", cx.fr, "key"))
    cx.I.store(st, p, bind("sorted", [x, y], v, k, const("cmp", "str")))
    return UNIT


@model("std::slice::sort", "core::slice::sort_unstable", "core::slice::sort")
def _(cx):
    p = cx.args[0]
    x = var("sx", cx.fr)
    cx.I.store(cx.st, p, bind("sorted", [x], cx.load(p), x, const("key", "str")))
    return UNIT


@model("std::vec::Vec::dedup_by_key", "std::vec::Vec::dedup", "std::vec::Vec::dedup_by")
def _(cx):
    p = cx.args[0]
    v = cx.load(p)
    if len(cx.args) > 1 and cx.last == "dedup_by_key":
        x = var("dx", cx.fr)
        k = cx.I.apply(cx.args[1], [vr(x)], cx.st.clone(), mk("fr", cx.fr, "key"))
    else:
        x = var("dx", cx.fr)
        k = x
    cx.I.store(cx.st, p, bind("dedup", [x], v, k))
    return UNIT


@model("core::slice::reverse")
def _(cx):
    p = cx.args[0]
    v = cx.load(p)
    n = num(length(v))
    if is_arr(v):
        v2 = arr2(v.a[1], *reversed(v.a[2:]))
    else:
        v2 = mk("reversed", v)
    cx.I.store(cx.st, p, v2)
    return UNIT


@model("std::mem::swap")
def _(cx):
    a, b = cx.args
    x, y = cx.load(a), cx.load(b)
    cx.I.store(cx.st, a, y)
    cx.I.store(cx.st, b, x)
    return UNIT


@model("std::mem::replace")
def _(cx):
    a, b = cx.args
    x = cx.load(a)
    cx.I.store(cx.st, a, b)
    return x


@model("std::mem::take")
def _(cx):
    a = cx.args[0]
    x = cx.load(a)
    t = cx.I.ty(cx.retty)
    cx.I.store(cx.st, a, EMPTY if "Vec" in t["s"] else mk("app", "default"))
    return x


@model("std::mem::drop", "std::mem::forget")
def _(cx):
    return UNIT


@model("std::clone::Clone::clone")
def _(cx):
    v = cx.load(cx.args[0])
    return v


@model("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::convert::AsRef::as_ref", "std::convert::AsMut::as_mut")
def _(cx):
    p = cx.args[0]
    I = cx.I
    t = tyof(I, cx.tys[0])
    if t is not None and t["k"] == "adt" and t["n"] == "nalgebra::Matrix":
        p = mptr(I, cx.st, p)
        v = cx.load(p)
        d = dims(I, t)
        if not is_arr(v) and d and None not in d:
            w = vec(v, d)
            if cx.last == "deref_mut":
                I.store(cx.st, p, w)
                return p
            return mapl(w, vr)
        return p
    if t is not None and t["k"] == "adt" and t["n"].endswith("ImageBuffer"):
        v = cx.load(p)
        return vr(imgdata(v))
    return p


def rangeof(cx, i, ty, n):
    """(start, end) of a range value of the given type"""
    t = cx.I.ty(ty)
    s = t["n"].split("::")[-1] if t["k"] == "adt" else ""
    g = lambda j: i.a[2 + j] if i.op == "agg" and len(i.a) > 2 + j else fld(i, j)
    if s == "Range":
        return g(0), g(1)
    if s == "RangeFrom":
        return g(0), n
    if s == "RangeTo":
        return ZERO, g(0)
    if s == "RangeFull":
        return ZERO, n
    if s == "RangeInclusive":
        return g(0), iadd(g(1), ONE)
    if s == "RangeToInclusive":
        return ZERO, iadd(g(0), ONE)
    return None


def idxptr(cx, p, i, ty):
    I = cx.I
    r = rangeof(cx, i, ty, length(cx.load(p)))
    if r is not None:
        return I.sub(p, mk("psl", *r))
    return I.sub(p, pi(i)) if i.op != "ite" else mapl(i, lambda j: I.sub(p, pi(j)))


def linear(i, d):
    if i.op == "agg" and i.a[0] == "tuple" and d and d[0] is not None:
        r, c = num(i.a[2]), num(i.a[3])
        if r is not None and c is not None:
            return I0(int(c) * d[0] + int(r))
    return i


@model("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def _(cx):
    I, st = cx.I, cx.st
    p, i = cx.args[0], cx.args[1]
    t = tyof(I, cx.tys[0])
    n = t["n"] if t is not None and t["k"] == "adt" else ""
    if n == "nalgebra::Matrix":
        p = mptr(I, st, p)
        d = dims(I, t)
        i = linear(i, d)
        if cx.last == "index_mut" and None not in d and p.op == "ref":
            v = I.load(st, p)
            if not is_arr(v) and v.op != "ite" and not isview(I, cx.tys[0]):
                I.store(st, p, vec(v, d))
        if i.op == "agg" and (d[0] is None or d[1] is None) and d[1] == 1:
            i = i.a[2]
        return I.sub(p, pi(i)) if i.op != "ite" else mapl(i, lambda j: I.sub(p, pi(j)))
    if n in ("image::Rgb", "image::Luma", "image::Rgba", "image::LumaA"):
        return I.sub(p, pf(0), pi(i))
    if n.endswith("HashMap"):
        m = cx.load(p)
        return vr(mget(m, cx.pure(follow(cx, cx.args[1], 1))))
    if n.endswith("BTreeMap"):
        m = cx.load(p)
        return vr(mget(m, cx.pure(follow(cx, cx.args[1], 1))))
    if n.endswith("ImageBuffer"):
        v = cx.load(p)
        return vr(pix(v, i.a[2], i.a[3])) if i.op == "agg" else NotImplemented
    return idxptr(cx, p, i, cx.tys[1])


@model("std::array::map", "core::array::map")
def _(cx):
    v = cx.args[0]
    if not is_arr(v):
        t = cx.I.ty(cx.tys[0])
        if t["k"] == "array" and t.get("n") and t["n"] <= 64:
            v = arr2(t["n"], *[index(v, I0(i)) for i in range(t["n"])])
        else:
            return NotImplemented
    return arr2(v.a[1], *[cx.I.apply(cx.args[1], [e], cx.st, mk("fr", cx.fr, "am", i)) for i, e in enumerate(v.a[2:])])


@model("std::array::from_fn", "core::array::from_fn")
def _(cx):
    t = cx.I.ty(cx.retty)
    if not t.get("n") or t["n"] > 64:
        return NotImplemented
    return arr2(t["n"], *[cx.I.apply(cx.args[0], [I0(i)], cx.st, mk("fr", cx.fr, "af", i)) for i in range(t["n"])])


@model("core::array::as_slice", "std::array::as_slice", "core::array::as_mut_slice")
def _(cx):
    return cx.args[0]


# ---------------------------------------------------------------- conversions
@model("std::convert::From::from", "std::convert::Into::into")
def _(cx):
    I = cx.I
    d = dims(I, cx.retty)
    v = cx.args[0]
    src, dst = I.ty(cx.tys[0]), I.ty(cx.retty)
    if d and None not in d:
        t = src
        if t["k"] in ("array",) or dims(I, cx.tys[0]):
            w = vec(v, d)
            if is_arr(w):
                return arr2(d[0], *w.a[2:])
            return w
        return NotImplemented
    if dst["k"] == "array" and dims(I, cx.tys[0]):
        w = vec(v, dims(I, cx.tys[0]))
        return w
    if src["k"] in ("int", "uint", "float", "bool") and dst["k"] in ("int", "uint", "float"):
        if src["k"] == "bool":
            return ite(as_bool(v), ONE, ZERO)
        return cast(v, src["w"], dst["w"])
    if src["k"] == dst["k"] and src["s"] == dst["s"]:
        return v
    if dst["k"] == "adt" and dst["n"] in ("std::boxed::Box", "alloc::boxed::Box"):
        it_ = I.ty(dst["a"][0])
        if it_["k"] != "dyn":
            return v
    if dst["k"] == "adt" and dst["n"].endswith("NonNull"):
        return v
    if dst["k"] == "adt" and dst["n"].split("::")[-1] == "CsrMatrix":
        x = follow(cx, v)
        return x
    if dst["k"] == "adt" and dst["n"].split("::")[-1] in ("Vec",) and src["k"] in ("array",):
        return v
    if dst["k"] == "adt" and dst["n"].split("::")[-1] == "Rgb" and src["k"] == "array":
        return agg("image::Rgb", 0, v)
    if dst["k"] == "adt" and dst["n"].split("::")[-1] == "Option":
        return some(v)
    if dst["k"] == "adt" and dst["n"].split("::")[-1] == "HashMap" and src["k"] == "array":
        return agg("HashMap", 0, v)
    return NotImplemented


@model("std::convert::TryFrom::try_from", "std::convert::TryInto::try_into")
def _(cx):
    I = cx.I
    src, dst = I.ty(cx.tys[0]), I.ty(cx.retty)
    x = cx.args[0]
    if dst["k"] == "adt" and dst["n"].endswith("Result") and src["k"] in ("int", "uint"):
        to = I.ty(dst["a"][0])
        if to["k"] in ("int", "uint"):
            if bits_(to["w"]) and bits_(src["w"]) and src["k"] == to["k"] == "uint" and bits_(to["w"]) >= bits_(src["w"]):
                return ok(cast(x, src["w"], to["w"]))
            c = ilt(x, I0(1 << (bits_(to["w"]) - (1 if to["k"] == "int" else 0)))) if src["k"] == "uint" else lit(mk("fitsint", to["w"], x))
            return ite(c, ok(mk("ncast", src["w"], to["w"], x)), err(mk("app", "TryFromIntError", x)))
    if dst["k"] == "adt" and dst["n"].endswith("Result"):
        to = I.ty(dst["a"][0])
        v = follow(cx, x, 1)
        if to["k"] == "array" and to.get("n") and to["n"] <= 64:
            c = eq(length(v), I0(to["n"]))
            w = arr2(to["n"], *[index(v, I0(i)) for i in range(to["n"])])
            return ite(c, ok(w), err(mk("app", "TryFromSliceError", v)))
    return NotImplemented


# ---------------------------------------------------------------- arithmetic through traits
def arith(op):
    def f(cx):
        I = cx.I
        d0, d1 = dims(I, cx.tys[0]), dims(I, cx.tys[1])
        t0, t1 = tyof(I, cx.tys[0]), tyof(I, cx.tys[1])
        if d0 is None and d1 is None:
            if t0["k"] == "float" and t1["k"] == "float":
                return fop({"+": "f+", "-": "f-", "*": "f*", "/": "f/"}[op], sval(cx, 0), sval(cx, 1))
            if t0["k"] in ("int", "uint") and t1["k"] in ("int", "uint"):
                x, y, w = sval(cx, 0), sval(cx, 1), t0["w"]
                return {"+": lambda: iadd(x, y, w), "-": lambda: isub(x, y, w), "*": lambda: imul(x, y, w), "/": lambda: i2("/", x, y, w)}[op]()
            if op == "*" and t0["k"] == "adt" and "Csr" in t0["n"]:
                return matmul(follow(cx, cx.args[0]), follow(cx, cx.args[1]))
            if "good_lp" in (t0["s"] + t1["s"]):
                return mk("lp", op, lpval(cx, 0), lpval(cx, 1))
            return NotImplemented
        if d0 is not None and d1 is not None:
            x, y = mval(cx, 0), mval(cx, 1)
            if op == "*":
                return matmul(x, y, d0, d1)
            if None in d0:
                return mk("app", "mat" + op, x, y)
            return vmap2(x, y, d0, lambda a, b: fop("f" + op, a, b))
        if d0 is not None and t1["k"] == "float":
            x, y = mval(cx, 0), sval(cx, 1)
            if None in d0:
                return mk("app", "mat" + op, x, y)
            return vmap(x, d0, lambda a: fop("f" + op, a, y))
        if d1 is not None and t0["k"] == "float":
            x, y = sval(cx, 0), mval(cx, 1)
            if None in d1:
                return mk("app", "mat" + op, x, y)
            return vmap(y, d1, lambda a: fop("f" + op, x, a))
        if d1 is not None and "Csr" in t0["s"]:
            return matmul(follow(cx, cx.args[0]), mval(cx, 1))
        return NotImplemented
    return f


def lpval(cx, i):
    v = sval(cx, i)
    return v


def vmap(x, d, f):
    x = vec(x, d)
    if x.op == "ite":
        return mapl(x, lambda v: vmap(v, d, f))
    if x is BOT:
        return BOT
    if not is_arr(x):
        return mk("app", "vmap", x)
    return arr2(x.a[1], *[f(e) for e in x.a[2:]])


def vmap2(x, y, d, f):
    x, y = vec(x, d), vec(y, d)

    def g(x, y):
        if not is_arr(x) or not is_arr(y) or len(x.a) != len(y.a):
            return mk("app", "vmap2", x, y)
        return arr2(x.a[1], *[f(a, b) for a, b in zip(x.a[2:], y.a[2:])])
    return map2(x, y, g)


def matmul(x, y, d0=None, d1=None):
    def g(x, y):
        if is_arr(x) and is_arr(y):
            r, n = x.a[1], y.a[1]
            c = (len(y.a) - 2) // n if n else 0
            if r * n == len(x.a) - 2:
                es = []
                for j in range(c):
                    for i in range(r):
                        s = const(0.0, "f64")
                        for k in range(n):
                            s = fop("f+", s, fop("f*", x.a[2 + k * r + i], y.a[2 + j * n + k]))
                        es.append(s)
                return arr2(r, *es)
        return mk("matmul", x, y)
    return map2(x, y, g)


for nm, o in (("Add::add", "+"), ("Sub::sub", "-"), ("Mul::mul", "*"), ("Div::div", "/")):
    M["std::ops::" + nm] = arith(o)


@model("std::ops::Rem::rem")
def _(cx):
    t = tyof(cx.I, cx.tys[0])
    if t["k"] in ("int", "uint"):
        return i2("%", sval(cx, 0), sval(cx, 1), t["w"])
    return NotImplemented


def arith_assign(op):
    f = arith(op)

    def g(cx):
        p = cx.args[0]
        I = cx.I
        t = I.ty(cx.tys[0])
        inner = t["e"]
        if dims(I, inner):
            p = mptr(I, cx.st, p)
        c2 = Call(I, cx.callee, cx.args, cx.st, cx.fr, cx.tys, cx.retty)
        v = f(c2)
        if v is NotImplemented:
            return v
        I.store(cx.st, p, v)
        return UNIT
    return g


for nm, o in (("AddAssign::add_assign", "+"), ("SubAssign::sub_assign", "-"), ("MulAssign::mul_assign", "*"), ("DivAssign::div_assign", "/")):
    M["std::ops::" + nm] = arith_assign(o)


@model("std::ops::Neg::neg")
def _(cx):
    d = dims(cx.I, cx.tys[0])
    if d:
        return vmap(mval(cx, 0), d, fneg) if None not in d else mk("app", "neg", mval(cx, 0))
    t = tyof(cx.I, cx.tys[0])
    return fneg(sval(cx, 0)) if t["k"] == "float" else isub(ZERO, sval(cx, 0))


@model("std::ops::Not::not")
def _(cx):
    t = tyof(cx.I, cx.tys[0])
    return Not(as_bool(sval(cx, 0))) if t["k"] == "bool" else NotImplemented


def cmpmodel(name):
    def f(cx):
        t = tyof(cx.I, cx.tys[0])
        if t["k"] == "float":
            x, y = sval(cx, 0), sval(cx, 1)
            return {"lt": lambda: flt(x, y), "le": lambda: fle(x, y), "gt": lambda: flt(y, x), "ge": lambda: fle(y, x)}[name]()
        if t["k"] in ("int", "uint", "char"):
            x, y = sval(cx, 0), sval(cx, 1)
            return {"lt": lambda: ilt(x, y), "le": lambda: Not(ilt(y, x)), "gt": lambda: ilt(y, x), "ge": lambda: Not(ilt(x, y))}[name]()
        return lit(mk("rel", name, cx.pure(sval(cx, 0)), cx.pure(sval(cx, 1))))
    return f


for nm in ("lt", "le", "gt", "ge"):
    M["std::cmp::PartialOrd::" + nm] = cmpmodel(nm)


@model("std::cmp::PartialOrd::partial_cmp")
def _(cx):
    return some(mk("cmp", cx.pure(sval(cx, 0)), cx.pure(sval(cx, 1))))


@model("std::cmp::Ord::cmp", "core::f64::total_cmp")
def _(cx):
    return mk("cmp", cx.pure(sval(cx, 0)), cx.pure(sval(cx, 1)))


@model("std::cmp::Ordering::reverse")
def _(cx):
    x = cx.args[0]
    return mk("cmp", x.a[1], x.a[0]) if x.op == "cmp" else NotImplemented


@model("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne")
def _(cx):
    I = cx.I
    x, y = sval(cx, 0), sval(cx, 1)
    t = tyof(I, cx.tys[0])
    r = valeq(cx, x, y, t)
    if r is None:
        return NotImplemented
    return r if cx.last == "eq" else Not(r)


def valeq(cx, x, y, t):
    I = cx.I
    if t["k"] == "float":
        return I.feq(x, y)
    if t["k"] == "bool":
        return ite(as_bool(x), as_bool(y), Not(as_bool(y)))
    if t["k"] in ("int", "uint", "char"):
        return eq(x, y)
    if t["k"] == "adt" and t["n"] in ("image::Rgb", "image::Luma"):
        e = I.ty(t["a"][0])
        xs, ys = [vec(fld(v, 0), 3) for v in (x, y)]
        return map2(xs, ys, lambda p, q: And(*[eq(a, b) for a, b in zip(p.a[2:], q.a[2:])]) if is_arr(p) and is_arr(q) else lit(mk("same", p, q)))
    if t["k"] in ("array", "slice") or t["k"] == "adt" and t["n"].split("::")[-1] in ("Vec", "Box"):
        nx, ny = num(length(x)), num(length(y))
        et = I.ty(t["e"]) if "e" in t else None
        if nx is None and ny is not None and is_arr(y):
            x = vec(x, int(ny)) if not x.op == "ite" else x
        if ny is None and nx is not None and is_arr(x):
            y = vec(y, int(nx))
        if et is not None and is_arr(x) and is_arr(y):
            if len(x.a) != len(y.a):
                return FALSE
            rs = [valeq(cx, a, b, et) for a, b in zip(x.a[2:], y.a[2:])]
            return None if None in rs else And(*rs)
        a, b = (x, y) if x.id < y.id else (y, x)
        return lit(mk("same", cx.pure(a), cx.pure(b)))
    if t["k"] == "tuple":
        rs = [valeq(cx, fld(x, i), fld(y, i), I.ty(f)) for i, f in enumerate(t["f"])]
        return None if None in rs else And(*rs)
    if x.op == "agg" and y.op == "agg":
        return eq(cx.pure(x), cx.pure(y))
    d = dims(I, t)
    if d and None not in d:
        a, b = vec(x, d), vec(y, d)
        if is_arr(a) and is_arr(b):
            et = I.ty(t["a"][0])
            rs = [valeq(cx, p, q, et) for p, q in zip(a.a[2:], b.a[2:])]
            return None if None in rs else And(*rs)
    x, y = cx.pure(x), cx.pure(y)
    if x is y:
        return TRUE
    a, b = (x, y) if x.id < y.id else (y, x)
    return lit(mk("same", a, b))


@model("std::cmp::max", "std::cmp::Ord::max")
def _(cx):
    t = cx.I.ty(cx.tys[0])
    return imax(cx.args[0], cx.args[1]) if t["k"] in ("int", "uint") else NotImplemented


@model("std::cmp::min", "std::cmp::Ord::min")
def _(cx):
    t = cx.I.ty(cx.tys[0])
    return imin(cx.args[0], cx.args[1]) if t["k"] in ("int", "uint") else NotImplemented


@model("std::cmp::Ord::clamp")
def _(cx):
    return fun("iclamp", *cx.args)


@model("core::f64::clamp", "std::f64::clamp")
def _(cx):
    return fun("fclamp", *cx.args)


@model("core::f64::min", "std::f64::min")
def _(cx):
    x, y = cx.args
    return fun("fmin", *((x, y) if x.id < y.id else (y, x)))


@model("core::f64::max", "std::f64::max")
def _(cx):
    x, y = cx.args
    return fun("fmax", *((x, y) if x.id < y.id else (y, x)))


def _mono(op, *a):
    return None


@model("core::f64::abs", "std::f64::abs")
def _(cx):
    return fun("fabs", cx.args[0])


@model("std::f64::round", "std::f64::floor", "std::f64::ceil", "std::f64::sqrt", "std::f64::trunc", "core::f64::round", "core::f64::floor",
       "core::f64::ceil", "core::f64::sqrt", "core::f64::trunc")
def _(cx):
    return fun("f" + cx.last, cx.args[0])


@model("std::f64::powi", "core::f64::powi")
def _(cx):
    x, n = cx.args
    k = num(n)
    if k is not None and 1 <= k <= 4:
        r = x
        for _ in range(int(k) - 1):
            r = fop("f*", r, x)
        return r
    return fun("fpowi", x, n)


@model("core::f64::is_nan", "std::f64::is_nan")
def _(cx):
    return as_bool(isnan(sval(cx, 0)))


@model("std::f64::mul_add", "core::f64::mul_add")
def _(cx):
    x, y, z = cx.args
    return fop("f+", fop("f*", x, y), z)


@model("core::f64::recip", "std::f64::recip")
def _(cx):
    return fop("f/", const(1.0, "f64"), cx.args[0])


def intm(name, f):
    M["core::num::" + name] = f


intm("wrapping_add", lambda cx: iadd(sval(cx, 0), sval(cx, 1)))
intm("wrapping_sub", lambda cx: isub(sval(cx, 0), sval(cx, 1)))
intm("wrapping_mul", lambda cx: imul(sval(cx, 0), sval(cx, 1), cx.I.width(cx.tys[0])))
intm("saturating_sub", lambda cx: fun("satsub", sval(cx, 0), sval(cx, 1)))
intm("checked_mul", lambda cx: chk(cx, "*"))
intm("checked_add", lambda cx: chk(cx, "+"))
intm("checked_sub", lambda cx: chk(cx, "-"))
intm("is_power_of_two", lambda cx: lit(mk("op", "pow2", sval(cx, 0))))


def chk(cx, op):
    w = cx.I.width(cx.tys[0])
    x, y = sval(cx, 0), sval(cx, 1)
    v = {"*": imul, "+": iadd, "-": isub}[op](x, y, w)
    return ite(lit(mk("nooverflow", op, w, x, y)), some(v), NONE)


# ---------------------------------------------------------------- cells, pointers
@model("std::cell::Cell::new", "std::cell::RefCell::new", "std::rc::Rc::new", "std::sync::Arc::new", "std::mem::ManuallyDrop::new")
def _(cx):
    return agg("cell", 0, cx.args[0])


@model("std::cell::Cell::get")
def _(cx):
    return fld(cx.load(cx.args[0]), 0)


@model("std::cell::Cell::set")
def _(cx):
    cx.I.store(cx.st, cx.I.sub(cx.args[0], pf(0)), cx.args[1])
    cx.I.log.append(("cellset", cx.st.pc, cx.args[0], cx.args[1]))
    return UNIT


@model("std::cell::Cell::replace")
def _(cx):
    v = fld(cx.load(cx.args[0]), 0)
    cx.I.store(cx.st, cx.I.sub(cx.args[0], pf(0)), cx.args[1])
    return v


@model("std::cell::Cell::take")
def _(cx):
    v = fld(cx.load(cx.args[0]), 0)
    cx.I.store(cx.st, cx.I.sub(cx.args[0], pf(0)), NONE)
    return v


@model("std::ptr::NonNull::as_ptr", "std::ptr::NonNull::cast", "std::ptr::mut_ptr::cast", "std::ptr::const_ptr::cast", "std::ptr::NonNull::new_unchecked",
       "std::ptr::NonNull::as_ref", "std::ptr::NonNull::as_mut", "std::ptr::mut_ptr::cast_const", "std::ptr::const_ptr::cast_mut",
       "std::ptr::from_ref", "std::ptr::from_mut")
def _(cx):
    if cx.last in ("as_ref", "as_mut"):
        return cx.load(cx.args[0])
    return cx.args[0]


@model("std::ptr::NonNull::new")
def _(cx):
    p = cx.args[0]
    return ite(Not(cx.I.ptreq(p, ZERO)) if p.op != "ite" else mapl(p, lambda q: Not(cx.I.ptreq(q, ZERO))), some(p), NONE)


@model("std::ptr::mut_ptr::is_null", "std::ptr::const_ptr::is_null")
def _(cx):
    p = cx.args[0]
    return as_bool(mapl(p, lambda q: cx.I.ptreq(q, ZERO)))


@model("std::ptr::null", "std::ptr::null_mut")
def _(cx):
    return ZERO


@model("std::ptr::mut_ptr::read", "std::ptr::const_ptr::read", "std::ptr::read")
def _(cx):
    return cx.load(cx.args[0])


@model("std::ptr::mut_ptr::write", "std::ptr::write")
def _(cx):
    cx.I.store(cx.st, cx.args[0], cx.args[1])
    return UNIT


@model("std::ptr::mut_ptr::add", "std::ptr::const_ptr::add", "std::ptr::mut_ptr::offset", "std::ptr::const_ptr::offset")
def _(cx):
    return padd(cx.args[0], cx.args[1])


def padd(p, n):
    if p.op == "ite":
        return mapl(p, lambda q: padd(q, n))
    if isc(n, 0):
        return p
    if p.op == "padd":
        return padd(p.a[0], iadd(p.a[1], n))
    return mk("padd", p, n)


@model("std::ptr::eq")
def _(cx):
    return map2(cx.args[0], cx.args[1], cx.I.ptreq)


@model("std::slice::from_raw_parts", "std::slice::from_raw_parts_mut", "std::ptr::slice_from_raw_parts", "std::ptr::slice_from_raw_parts_mut")
def _(cx):
    return mk("rawslice", cx.args[0], cx.args[1])


@model("std::mem::size_of")
def _(cx):
    t = cx.I.ty(cx.gargs[0]) if cx.gargs and isinstance(cx.gargs[0], int) else None
    if t is None:
        return NotImplemented
    s = sizeof(cx.I, cx.gargs[0])
    return I0(s) if s is not None else mk("sizeof", t["s"])


def sizeof(I, i):
    t = I.ty(i)
    if t["k"] in ("int", "uint", "float"):
        b = bits_(t["w"]) or (32 if t["w"] == "f32" else 64 if t["w"] == "f64" else None)
        return b // 8 if b else None
    if t["k"] == "array" and t.get("n") is not None:
        s = sizeof(I, t["e"])
        return None if s is None else s * t["n"]
    if t["k"] in ("ptr", "ref"):
        return 8
    return None


# ---------------------------------------------------------------- hash maps
# A map is the log of what was done to it: agg("HashMap", 0, seq of one(..)) with elements tup(key, value) (insert),
# orins(key, value) (insert if absent) and modify(key, x -> value); sets have the elements themselves. Maps of unknown
# origin are any other term.
def ents(m, mode, p=UNIT):
    return D("ents", m, const(mode, "str"), p)


def known(m):
    """[(key, value)] of a map that only has constant keys, in the order of their first insertion; None otherwise"""
    if m.op != "agg" or len(m.a) != 3:
        return None
    if m.a[2] is EMPTY:
        return {}
    s = m.a[2]
    if s.op != "seq" or s.a[0] is not EMPTY:
        return None
    r = {}
    for x in s.a[1:]:
        if x.op != "one" or x.a[0] is not TRUE:
            return None
        e = x.a[1]
        if e.op == "agg" and e.a[0] == "tuple" and len(e.a) == 4 and e.a[2].op == "c":
            r[e.a[2].a[0]] = e.a[3]
        elif e.op == "orins" and e.a[0].op == "c":
            r.setdefault(e.a[0].a[0], e.a[1])
        elif e.op == "c":
            r[e.a[0]] = UNIT
        else:
            return None
    return r


def mlen(m):
    if m.op == "agg":
        r = known(m)
        if r is not None:
            return I0(len(r))
    if m.op == "wrs" and all(s.op == "rep" for s in m.a[1:]):
        return mlen(m.a[0])
    return mapl(m, lambda x: mk("mlen", x))


def samekeys(m, s):
    """s: a rep that writes every key of m once: its variable and value"""
    if s.op != "rep" or len(s.a) != 4 or s.a[3].op != "wm":
        return None
    vs, body = open_(s)
    w = body[1]
    if w.a[0] is TRUE and w.a[1] is mkey(m, vs[0]) and body[0].a[0] is mlen(m):
        return vs[0], w.a[2]
    return None


def mkey(m, k):
    def f(m):
        if m.op == "wrs" and len(m.a) == 2 and samekeys(m.a[0], m.a[1]):
            return mkey(m.a[0], k)
        return mk("mkey", m, k)
    return mapl(m, f)


def mvalat(m, k):
    def f(m):
        if m.op == "wrs" and len(m.a) == 2:
            r = samekeys(m.a[0], m.a[1])
            if r:
                return subst(r[1], {r[0]: k})
        return mk("mval", m, k)
    return mapl(m, f)


def mget(m, k):
    def f(m):
        if m.op == "mset" and m.a[1] is k:
            return m.a[2]
        if k.op == "mkey" and k.a[0] is m:
            return mvalat(m, k.a[1])
        if m.op == "agg" and m.a[2].op == "seq":
            last = m.a[2].a[-1]
            if last.op == "one" and last.a[0] is TRUE:
                e = last.a[1]
                if e.op == "agg" and e.a[0] == "tuple" and e.a[2] is k:
                    return e.a[3]
                if e.op == "modify" and e.a[2] is k:
                    prev = mk("agg", m.a[0], 0, seq(m.a[2].a[0], *m.a[2].a[1:-1]))
                    return inst(e, mget(prev, k))[1]
            if k.op == "c":
                r = known(m)
                if r is not None and k.a[0] in r:
                    return r[k.a[0]]
        return mk("mget", m, k)
    return mapl(m, f)


REBUILD["mget"] = mget
REBUILD["mkey"] = mkey
REBUILD["mval"] = mvalat
REBUILD["mlen"] = mlen
M["!mget"] = mget


def mput(m, k, val):
    """map m after the value of key k (which is there) was overwritten"""
    if m.op == "ite":
        return mapl(m, lambda x: mput(x, k, val))
    if m.op == "agg":
        old = mget(m, k)
        x = var("mx", m, k)
        body = subst1(val, old, x)
        return mk("agg", m.a[0], 0, seq(m.a[2], one(bind("modify", [x], k, body))))
    if m.op == "mset" and m.a[1] is k:
        return mk("mset", m.a[0], k, val)
    return mk("mset", m, k, val)


def subst1(t, what, by):
    """t with the (possibly closed) term `what` replaced"""
    memo = {}

    def go(x):
        if x is what:
            return by
        r = memo.get(x)
        if r is None:
            na = tuple([go(y) if type(y) is T else y for y in x.a])
            r = x if all(p is q for p, q in zip(na, x.a)) else rebuild(x.op, na)
            memo[x] = r
        return r
    return go(t)


M["!mput"] = mput


def mhas(m, k):
    def f(m):
        if m.op == "agg" and m.a[2] is EMPTY:
            return FALSE
        if m.op == "mset" and m.a[1] is k:
            return TRUE
        if k.op == "c" and m.op == "agg":
            r = known(m)
            if r is not None:
                return TRUE if k.a[0] in r else FALSE
        if k.op == "mkey" and k.a[0] is m:
            return TRUE
        return lit(mk("has", m, k))
    return as_bool(mapl(m, f))


@model("std::collections::HashMap::new", "std::collections::HashMap::with_capacity", "std::collections::HashSet::new",
       "std::collections::HashSet::with_capacity", "std::collections::HashMap::with_capacity_and_hasher")
def _(cx):
    return agg("HashMap", 0, EMPTY)


@model("std::collections::BTreeMap::new", "std::collections::BTreeSet::new")
def _(cx):
    return agg("BTree", 0, EMPTY)


@model("std::collections::HashMap::insert", "std::collections::BTreeMap::insert")
def _(cx):
    p, k, v = cx.args
    k = cx.pure(k)
    m = cx.load(p)
    had = mhas(m, k)
    old = mget(m, k)
    cx.I.store(cx.st, p, madd(m, tup(k, v)))
    return ite(had, some(old), NONE)


@model("std::collections::HashSet::insert", "std::collections::BTreeSet::insert")
def _(cx):
    p, k = cx.args
    k = cx.pure(k)
    m = cx.load(p)
    had = mhas(m, k)
    cx.I.store(cx.st, p, madd(m, k))
    return Not(had)


def madd(m, e, c=TRUE):
    if m.op == "ite":
        return mapl(m, lambda x: madd(x, e, c))
    if m.op == "agg" and len(m.a) == 3:
        return mk("agg", m.a[0], 0, seq(m.a[2], one(e, c)))
    return mk("agg", "HashMap", 0, seq(mk("log", m), one(e, c)))


@model("std::collections::HashMap::entry", "std::collections::BTreeMap::entry")
def _(cx):
    return agg("entry", 0, cx.args[0], cx.pure(cx.args[1]))


@model("std::collections::hash_map::Entry::or_insert", "std::collections::hash_map::Entry::or_insert_with", "std::collections::hash_map::Entry::or_default",
       "std::collections::btree_map::Entry::or_insert", "std::collections::btree_map::Entry::or_insert_with",
       "std::collections::btree_map::Entry::or_default")
def _(cx):
    I, st = cx.I, cx.st
    p, k = cx.args[0].a[2], cx.args[0].a[3]
    m = cx.load(p)
    if cx.last == "or_insert_with":
        had = mhas(m, k)
        v = guarded(I, st, Not(had), lambda: I.apply(cx.args[1], [], st, mk("fr", cx.fr, "oi")))
    elif cx.last == "or_default":
        t = tyof(I, cx.retty)
        v = default_of(I, t)
    else:
        v = cx.args[1]
    m = cx.load(p)
    m2 = madd(m, mk("orins", k, v))
    I.store(st, p, m2)
    val = mget(m2, k)
    return mk("ref", *(list(p.a) + [mk("pm", k, val)])) if p.op == "ref" else vr(val)


def default_of(I, t):
    if t and t["k"] in ("int", "uint"):
        return ZERO
    if t and t["k"] == "float":
        return const(0.0, "f64")
    if t and t["k"] == "adt" and t["n"].split("::")[-1] in ("Vec", "String", "VecDeque"):
        return EMPTY
    return mk("app", "default")


@model("std::collections::hash_map::Entry::and_modify")
def _(cx):
    I, st = cx.I, cx.st
    p, k = cx.args[0].a[2], cx.args[0].a[3]
    m = cx.load(p)
    had = mhas(m, k)
    if p.op == "ref":
        guarded(I, st, had, lambda: I.apply(cx.args[1], [mk("ref", *(list(p.a) + [mk("pm", k, mget(m, k))]))], st, mk("fr", cx.fr, "am")))
    return cx.args[0]


@model("std::collections::HashMap::get", "std::collections::HashMap::get_mut", "std::collections::BTreeMap::get")
def _(cx):
    m = cx.load(cx.args[0])
    k = cx.pure(follow(cx, cx.args[1], 1))
    r = vr(mget(m, k))
    if cx.last == "get_mut" and cx.args[0].op == "ref":
        r = cx.I.sub(cx.args[0], mk("pm", k, mget(m, k)))
    return ite(mhas(m, k), some(r), NONE)


@model("std::collections::HashMap::contains_key", "std::collections::HashSet::contains", "std::collections::BTreeMap::contains_key",
       "std::collections::BTreeSet::contains")
def _(cx):
    m = cx.load(cx.args[0])
    return mhas(m, cx.pure(follow(cx, cx.args[1], 1)))


@model("std::collections::HashMap::len", "std::collections::HashSet::len", "std::collections::BTreeMap::len")
def _(cx):
    m = cx.load(cx.args[0])
    return mlen(m)


@model("std::collections::HashMap::iter", "std::collections::HashMap::iter_mut", "std::collections::HashMap::keys", "std::collections::HashMap::values",
       "std::collections::HashMap::into_keys", "std::collections::HashMap::into_values", "std::collections::HashMap::drain",
       "std::collections::HashSet::iter", "std::collections::HashMap::values_mut", "std::collections::BTreeMap::iter",
       "std::collections::BTreeMap::iter_mut", "std::collections::BTreeMap::keys", "std::collections::BTreeMap::values",
       "std::collections::BTreeMap::into_keys", "std::collections::BTreeMap::into_values", "std::collections::BTreeSet::iter")
def _(cx):
    p = cx.args[0]
    m = cx.load(p) if p.op in ("ref", "vr") else p
    mode = {"iter": "set" if "Set::" in cx.key else "ref", "iter_mut": "mut", "drain": "own"}.get(cx.last, cx.last)
    return it(ents(m, mode, p))


# ---------------------------------------------------------------- nalgebra
@model("nalgebra::DimName::dim", "nalgebra::Dim::value")
def _(cx):
    import re
    m = re.search(r"Const<(\d+)>", cx.rkey)
    return I0(int(m.group(1))) if m else NotImplemented


NB = "nalgebra::base::construction::"


def fixed(cx):
    d = dims(cx.I, cx.retty)
    return d if d and None not in d and d[0] * d[1] <= 64 else None


@model(NB + "from_element", NB + "repeat", NB + "zeros", NB + "from_element_generic")
def _(cx):
    d = fixed(cx)
    x = cx.args[-1] if cx.last != "zeros" else const(0.0, "f64")
    if d:
        return arr2(d[0], *([x] * (d[0] * d[1])))
    dd = dims(cx.I, cx.retty)
    if dd == (None, None) and len(cx.args) >= 2:
        return mk("fillm", cx.args[0], cx.args[1], x)
    if dd and dd[0] is None and dd[1] is not None:
        return mk("fillm", cx.args[0], I0(dd[1]), x)
    return NotImplemented


@model(NB + "identity")
def _(cx):
    d = fixed(cx)
    return arr2(d[0], *[const(1.0 if i % d[0] == i // d[0] else 0.0, "f64") for i in range(d[0] * d[1])]) if d else NotImplemented


@model(NB + "new")
def _(cx):
    d = fixed(cx)
    if not d:
        return NotImplemented
    r, c = d
    # row-major arguments
    return arr2(r, *[cx.args[i * c + j] for j in range(c) for i in range(r)])


@model(NB + "from_iterator", NB + "from_row_iterator", NB + "from_row_slice", NB + "from_column_slice", NB + "from_vec", NB + "from_iterator_generic",
       NB + "from_row_slice_generic", NB + "from_vec_generic", NB + "from_row_iterator_generic")
def _(cx):
    I, st = cx.I, cx.st
    d = dims(I, cx.retty)
    roww = "row" in cx.last
    src = cx.args[-1]
    t = cx.tys[-1]
    if cx.last.startswith("from_row_slice") or cx.last == "from_column_slice":
        v = follow(cx, src)
    elif cx.last.startswith("from_vec"):
        v = src
    else:
        itv = toiter(I, st, src, t)
        if itv.op != "it":
            return NotImplemented
        dd, pp = itparts(itv)
        dd = dd if pp is ZERO else D("skip", dd, pp)
        if d and None not in d and d[0] * d[1] <= 64:
            # the constructor takes exactly that many
            if not filtered(dd) and (itlen(I, st, dd) is not None or dd.op == "i:flat" and False):
                es = []
                for j in range(d[0] * d[1]):
                    g, e = itelem(I, st, mk("fr", cx.fr, "el", j), dd, I0(j))
                    if e.op in ("ref", "vr") and scalar(I, cx.retty):
                        e = I.load(st, e)
                    es.append(e)
                return order(es, d, roww)
            if dd.op != "i:flat":
                es = [take_nth(cx, dd, j) for j in range(d[0] * d[1])]
                return order(es, d, roww)
        v = collect(cx, dd)
        if d and None not in d:
            b, ss = segs_of(v)
            if b is EMPTY and len(ss) == d[0] * d[1] and all(s.op == "one" and s.a[0] is TRUE for s in ss):
                return order([s.a[1] for s in ss], d, roww)
    if d and None not in d and d[0] * d[1] <= 64:
        es = [index(v, I0(j)) for j in range(d[0] * d[1])]
        return order(es, d, roww)
    args = list(cx.args[:-1])
    if d:
        r = I0(d[0]) if d[0] is not None else args.pop(0)
        c = I0(d[1]) if d[1] is not None else args.pop(0)
        return mk("mat", r, c, "r" if roww else "c", v)
    return NotImplemented


def take_nth(cx, d, j):
    """element j of an iterator whose length is not known (but long enough): adaptors are applied to the source's element"""
    I, st = cx.I, cx.st
    if filtered(d) and d.op != "i:map" and d.op != "i:cloned" and d.op != "i:opq":
        return mk("nth", d, I0(j))
    g, e = itelem(I, st, mk("fr", cx.fr, "el", j), d, I0(j))
    return e


def scalar(I, ty):
    return I.ty(elemtype(I, ty))["k"] in ("float", "int", "uint")


def order(es, d, roww):
    r, c = d
    if roww:
        es = [es[i * c + j] for j in range(c) for i in range(r)]
    return arr2(r, *es)


@model("nalgebra::base::construction::from_fn")
def _(cx):
    d = fixed(cx)
    if not d:
        return NotImplemented
    r, c = d
    return arr2(r, *[cx.I.apply(cx.args[-1], [I0(i), I0(j)], cx.st, mk("fr", cx.fr, "ff", i, j)) for j in range(c) for i in range(r)])


def dotp(x, y):
    def g(x, y):
        if not (is_arr(x) and is_arr(y)) or len(x.a) != len(y.a):
            return mk("app", "dot", x, y)
        s = const(0.0, "f64")
        for a, b in zip(x.a[2:], y.a[2:]):
            s = fop("f+", s, fop("f*", a, b))
        return s
    return map2(x, y, g)


@model("nalgebra::base::blas::dot")
def _(cx):
    return dotp(mval(cx, 0), mval(cx, 1))


@model("nalgebra::Matrix::cross")
def _(cx):
    def g(x, y):
        if not (is_arr(x) and is_arr(y)) or len(x.a) != 5:
            return mk("app", "cross", x, y)
        a, b = x.a[2:], y.a[2:]
        m = lambda i, j: fop("f-", fop("f*", a[i], b[j]), fop("f*", a[j], b[i]))
        return arr2(3, m(1, 2), m(2, 0), m(0, 1))
    return map2(mval(cx, 0), mval(cx, 1), g)


@model("nalgebra::base::norm::norm", "nalgebra::base::norm::magnitude")
def _(cx):
    x = mval(cx, 0)
    return fun("fsqrt", dotp(x, x))


@model("nalgebra::base::norm::norm_squared", "nalgebra::base::norm::magnitude_squared")
def _(cx):
    x = mval(cx, 0)
    return dotp(x, x)


@model("nalgebra::base::norm::normalize")
def _(cx):
    x = mval(cx, 0)
    n = fun("fsqrt", dotp(x, x))
    return vmap(x, dims(cx.I, cx.tys[0]), lambda a: fop("f/", a, n))


@model("nalgebra::base::norm::normalize_mut")
def _(cx):
    x = mval(cx, 0)
    n = fun("fsqrt", dotp(x, x))
    cx.I.store(cx.st, mptr(cx.I, cx.st, cx.args[0]), vmap(x, dims(cx.I, cx.tys[0]), lambda a: fop("f/", a, n)))
    return n


@model("nalgebra::Matrix::as_slice", "nalgebra::Matrix::as_mut_slice", "nalgebra::Matrix::as_ptr", "nalgebra::Matrix::as_mut_ptr",
       "nalgebra::Matrix::as_view", "nalgebra::Matrix::as_view_mut")
def _(cx):
    p = mptr(cx.I, cx.st, cx.args[0])
    d = dims(cx.I, cx.tys[0])
    v = cx.load(p)
    if d and None not in d and not is_arr(v) and v.op != "ite" and p.op == "ref" and "mut" in cx.last:
        cx.I.store(cx.st, p, vec(v, d))
    elif d and None not in d and not is_arr(v) and "mut" not in cx.last:
        return mapl(vec(v, d), vr)
    return p


@model("nalgebra::Matrix::iter", "nalgebra::Matrix::iter_mut")
def _(cx):
    return matiter(cx.I, cx.st, cx.args[0], dims(cx.I, cx.tys[0]), cx.last != "iter")


@model("nalgebra::Matrix::nrows")
def _(cx):
    d = dims(cx.I, cx.tys[0])
    return I0(d[0]) if d and d[0] is not None else nrows(mval(cx, 0))


@model("nalgebra::Matrix::ncols")
def _(cx):
    d = dims(cx.I, cx.tys[0])
    return I0(d[1]) if d and d[1] is not None else ncols(mval(cx, 0))


@model("nalgebra::Matrix::len")
def _(cx):
    d = dims(cx.I, cx.tys[0])
    return I0(d[0] * d[1]) if d and None not in d else imul(nrows(mval(cx, 0)), ncols(mval(cx, 0)))


@model("nalgebra::Matrix::shape")
def _(cx):
    v = mval(cx, 0)
    d = dims(cx.I, cx.tys[0])
    return tup(I0(d[0]) if d[0] is not None else nrows(v), I0(d[1]) if d[1] is not None else ncols(v))


@model("nalgebra::Matrix::row_iter", "nalgebra::Matrix::row_iter_mut")
def _(cx):
    p = mptr(cx.I, cx.st, cx.args[0])
    d = dims(cx.I, cx.tys[0])
    if d and d[0] is not None:
        k = var("rw", cx.fr)
        return it(D("n", k, I0(d[0]), cx.I.sub(p, mk("prow", k))))
    return it(D("row", p))


@model("nalgebra::Matrix::column_iter", "nalgebra::Matrix::column_iter_mut")
def _(cx):
    p = mptr(cx.I, cx.st, cx.args[0])
    if p.op == "ref" and p.a[-1].op == "pcols":
        return it(D("pcolr", mk("ref", *p.a[:-1]), p.a[-1].a[0], p.a[-1].a[1]))
    d = dims(cx.I, cx.tys[0])
    if d and d[1] is not None:
        return it(D("pcolr", p, ZERO, I0(d[1])))
    return it(D("col", p))


@model("nalgebra::base::matrix_view::columns_mut", "nalgebra::base::matrix_view::columns")
def _(cx):
    p = mptr(cx.I, cx.st, cx.args[0])
    return cx.I.sub(p, mk("pcols", cx.args[1], cx.args[2]))


@model("nalgebra::base::matrix_view::column", "nalgebra::base::matrix_view::column_mut")
def _(cx):
    p = mptr(cx.I, cx.st, cx.args[0])
    return cx.I.sub(p, mk("pcol", cx.args[1]))


@model("nalgebra::base::matrix_view::row", "nalgebra::base::matrix_view::row_mut")
def _(cx):
    p = mptr(cx.I, cx.st, cx.args[0])
    return cx.I.sub(p, mk("prow", cx.args[1]))


@model("nalgebra::Matrix::transpose")
def _(cx):
    v = mval(cx, 0)
    if not is_arr(v):
        return mk("app", "transpose", v)
    r = v.a[1]
    c = (len(v.a) - 2) // r
    return arr2(c, *[v.a[2 + j * r + i] for i in range(r) for j in range(c)])


@model("nalgebra::base::ops::mul_to")
def _(cx):
    x, y = mval(cx, 0), mval(cx, 1)
    p = mptr(cx.I, cx.st, cx.args[2])
    cx.I.store(cx.st, p, vecm(matmul(x, y), dims(cx.I, cx.tys[2])))
    return UNIT


def vecm(v, d):
    """a product with an opaque factor spelled out by element when the sizes are fixed"""
    return v


@model("nalgebra::base::edition::fill", "nalgebra::Matrix::fill")
def _(cx):
    p = mptr(cx.I, cx.st, cx.args[0])
    d = dims(cx.I, cx.tys[0])
    x = cx.args[1]
    if d and None not in d:
        cx.I.store(cx.st, p, arr2(d[0], *([x] * (d[0] * d[1]))))
    else:
        v = cx.load(p)
        cx.I.store(cx.st, p, mk("fillm", nrows(v), ncols(v), x))
    return UNIT


@model("nalgebra::Matrix::copy_from")
def _(cx):
    p = mptr(cx.I, cx.st, cx.args[0])
    cx.I.store(cx.st, p, mval(cx, 1))
    return UNIT


@model("nalgebra::Matrix::map")
def _(cx):
    d = dims(cx.I, cx.tys[0])
    v = mval(cx, 0)
    if not is_arr(v):
        return mk("app", "map", v)
    return arr2(v.a[1], *[cx.I.apply(cx.args[1], [e], cx.st, mk("fr", cx.fr, "mm", i)) for i, e in enumerate(v.a[2:])])


@model("nalgebra::base::edition::insert_row")
def _(cx):
    v = mval(cx, 0)
    i = num(cx.args[1])
    if not is_arr(v) or i is None:
        return NotImplemented
    r = v.a[1]
    c = (len(v.a) - 2) // r
    es = []
    for j in range(c):
        colv = list(v.a[2 + j * r:2 + j * r + r])
        colv.insert(int(i), cx.args[2])
        es += colv
    return arr2(r + 1, *es)


@model("nalgebra::base::edition::push")
def _(cx):
    v = mval(cx, 0)
    if not is_arr(v):
        return NotImplemented
    return arr2(v.a[1] + 1, *(list(v.a[2:]) + [cx.args[1]]))


@model("nalgebra::linalg::decomposition::lu", "nalgebra::linalg::decomposition::full_piv_lu", "nalgebra::linalg::decomposition::qr")
def _(cx):
    return agg("LU", 0, mval(cx, 0))


def invertible(cx, m):
    """whether m has an inverse; an analysis may fix that for the case at hand"""
    f = getattr(cx.I, "invertible", None)
    r = f(m) if f else None
    return lit(mk("invertible", m)) if r is None else r


def inv(m, d):
    """the inverse, by element"""
    return mk("inv", m)


def lumat(cx, i=0):
    v = follow(cx, cx.args[i])
    return fld(v, 0)


@model("nalgebra::LU::try_inverse", "nalgebra::FullPivLU::try_inverse", "nalgebra::QR::try_inverse")
def _(cx):
    m = lumat(cx)
    return ite(invertible(cx, m), some(mk("inv", m)), NONE)


@model("nalgebra::LU::try_inverse_to", "nalgebra::FullPivLU::try_inverse_to", "nalgebra::QR::try_inverse_to")
def _(cx):
    m = lumat(cx)
    c = invertible(cx, m)
    p = mptr(cx.I, cx.st, cx.args[1])
    cx.I.store(cx.st, p, ite(c, mk("inv", m), mk("garbage", m)))
    return c


@model("nalgebra::linalg::inverse::try_inverse")
def _(cx):
    m = mval(cx, 0)
    return ite(invertible(cx, m), some(mk("inv", m)), NONE)


@model("nalgebra::linalg::inverse::try_inverse_mut")
def _(cx):
    m = mval(cx, 0)
    c = invertible(cx, m)
    p = mptr(cx.I, cx.st, cx.args[0])
    cx.I.store(cx.st, p, ite(c, mk("inv", m), mk("garbage", m)))
    return c


@model("nalgebra::LU::solve", "nalgebra::QR::solve")
def _(cx):
    m = lumat(cx)
    return ite(invertible(cx, m), some(matmul(mk("inv", m), mval(cx, 1))), NONE)


@model("nalgebra::linalg::determinant::determinant")
def _(cx):
    m = mval(cx, 0)
    f = getattr(cx.I, "determinant", None)
    r = f(m) if f else None
    return fun("fdet", m) if r is None else r


@model("nalgebra_sparse::coo::CooMatrix::try_from_triplets")
def _(cx):
    return ok(mk("csr", *cx.args))


@model("nalgebra_sparse::csr::CsrMatrix::nrows")
def _(cx):
    return nrows(follow(cx, cx.args[0]))


# ---------------------------------------------------------------- image
def imgw(i):
    def f(x):
        if x.op == "imgbuf":
            return x.a[0]
        if x.op == "imgset":
            return f(x.a[0])
        return mk("imgw", x)
    return mapl(i, f)


def imgh(i):
    def f(x):
        if x.op == "imgbuf":
            return x.a[1]
        if x.op == "imgset":
            return f(x.a[0])
        return mk("imgh", x)
    return mapl(i, f)


def pix(i, x, y):
    """an Rgb value spelled out by component"""
    def f(im):
        if im.op == "imgbuf" and im.a[3] == 3:
            o = imul(iadd(imul(cast(y, "u32", "usize"), cast(im.a[0], "u32", "usize")), cast(x, "u32", "usize")), I0(3))
            return agg("image::Rgb", 0, arr2(3, *[index(im.a[2], iadd(o, I0(c))) for c in range(3)]))
        return agg("image::Rgb", 0, arr2(3, *[mk("px", im, x, y, c) for c in range(3)]))
    return mapl(i, f)


REBUILD["imgw"], REBUILD["imgh"] = imgw, imgh


def imgdata(v):
    return mapl(v, lambda x: x.a[2] if x.op == "imgbuf" else mk("imgdata", x))


@model("image::GenericImageView::width", "image::ImageBuffer::width", "image::DynamicImage::width")
def _(cx):
    return imgw(follow(cx, cx.args[0]) if cx.args[0].op in ("ref", "vr") else cx.load(cx.args[0]))


@model("image::GenericImageView::height", "image::ImageBuffer::height", "image::DynamicImage::height")
def _(cx):
    return imgh(follow(cx, cx.args[0]) if cx.args[0].op in ("ref", "vr") else cx.load(cx.args[0]))


@model("image::GenericImageView::dimensions", "image::ImageBuffer::dimensions")
def _(cx):
    v = cx.load(cx.args[0])
    return tup(imgw(v), imgh(v))


@model("image::GenericImageView::pixels")
def _(cx):
    return it(D("pixels", cx.load(cx.args[0])))


@model("image::GenericImageView::get_pixel")
def _(cx):
    return pix(cx.load(cx.args[0]), cx.args[1], cx.args[2])


@model("image::ImageBuffer::get_pixel")
def _(cx):
    return vr(pix(cx.load(cx.args[0]), cx.args[1], cx.args[2]))


@model("image::ImageBuffer::pixels")
def _(cx):
    img = cx.load(cx.args[0])
    w = imgw(img)
    k = var("ip", cx.fr)
    x = cast(i2("%", k, w, "usize"), "usize", "u32")
    y = cast(i2("/", k, w, "usize"), "usize", "u32")
    return it(D("n", k, imul(w, imgh(img)), vr(pix(img, x, y))))


@model("image::ImageBuffer::enumerate_pixels")
def _(cx):
    img = cx.load(cx.args[0])
    w = imgw(img)
    k = var("ip", cx.fr)
    x = cast(i2("%", k, w, "usize"), "usize", "u32")
    y = cast(i2("/", k, w, "usize"), "usize", "u32")
    return it(D("n", k, imul(w, imgh(img)), tup(x, y, vr(pix(img, x, y)))))


@model("image::ImageBuffer::from_pixel")
def _(cx):
    return mk("imgset", mk("imgbuf", cx.args[0], cx.args[1], mk("pixfill", cx.pure(cx.args[2])), 0))


@model("image::ImageBuffer::new")
def _(cx):
    return mk("imgset", mk("imgbuf", cx.args[0], cx.args[1], mk("pixfill", ZERO), 0))


def nchan(cx, i):
    s = cx.I.tystr(i)
    return 3 if "Rgb<" in s else 1 if "Luma<" in s else 0


@model("image::ImageBuffer::from_raw", "image::ImageBuffer::from_vec")
def _(cx):
    w, h, b = cx.args
    n = nchan(cx, cx.retty)
    buf = b
    data = cx.pure(follow(cx, b)) if b.op in ("ref", "vr") else cx.pure(b)
    L = length(data) if data.op != "rawslice" else data.a[1]
    need = imul(imul(w, h), I0(max(n, 1)))
    c = lit(mk("fits", L, w, h, I0(n)))
    cx.I.log.append(("fits", cx.st.pc, L, w, h, n))
    return ite(c, some(mk("imgbuf", w, h, data, n)), NONE)


@model("image::ImageBuffer::from_fn")
def _(cx):
    w, h, f = cx.args
    x, y = var("fx", cx.fr), var("fy", cx.fr)
    v = cx.I.apply(f, [x, y], cx.st, mk("fr", cx.fr, "ff"))
    return mk("imgset", mk("imgbuf", w, h, bind("pixfn", [x, y], v), 0))


@model("image::ImageBuffer::put_pixel", "image::GenericImage::put_pixel")
def _(cx):
    p = cx.args[0]
    cx.I.store(cx.st, p, updi(cx.load(p), tup(cx.args[1], cx.args[2]), cx.args[3]))
    return UNIT


@model("image::ImageBuffer::get_pixel_mut")
def _(cx):
    return cx.I.sub(cx.args[0], pi(tup(cx.args[1], cx.args[2])))


@model("image::ImageBuffer::into_raw", "image::ImageBuffer::into_vec")
def _(cx):
    return imgdata(cx.args[0])


@model("image::ImageBuffer::as_raw", "image::ImageBuffer::as_flat_samples")
def _(cx):
    return vr(imgdata(cx.load(cx.args[0])))


@model("image::Rgb::channels", "image::Pixel::channels")
def _(cx):
    return cx.I.sub(cx.args[0], pf(0))


# ---------------------------------------------------------------- strings and text
@model("core::str::split")
def _(cx):
    return it(D("opq", mk("app", "split", follow(cx, cx.args[0]), cx.args[1])))


@model("core::str::bytes", "core::str::chars", "core::str::as_bytes")
def _(cx):
    s = follow(cx, cx.args[0]) if cx.args[0].op in ("ref", "vr") else cx.load(cx.args[0])
    if cx.last == "as_bytes":
        return vr(mk("bytesof", s))
    return it(D("srcv", mk("bytesof", s) if cx.last == "bytes" else mk("charsof", s)))


REBUILD["bytesof"] = lambda s: mk("bytesof", s)


@model("core::str::is_ascii", "core::num::is_ascii_hexdigit", "core::num::is_ascii_digit", "core::char::is_ascii_hexdigit", "core::str::starts_with",
       "core::str::ends_with", "core::char::is_digit", "core::num::is_ascii")
def _(cx):
    return lit(mk("pred", cx.last, *[cx.pure(sval(cx, i)) for i in range(len(cx.args))]))


@model("core::num::from_str_radix")
def _(cx):
    s = follow(cx, cx.args[0]) if cx.args[0].op in ("ref", "vr") else cx.load(cx.args[0])
    a = mk("parse", cx.I.ty(cx.retty)["s"], s, cx.args[1])
    return ite(lit(mk("is1", a)), err(mk("app", "ParseIntError", a)), ok(mk("parsed", s, cx.args[1])))


@model("!foreign")
def _(cx):
    vs = [cx.pure(a) for a in cx.args]
    v = mk("app", cx.rkey or cx.key, *vs)
    cx.I.log.append(("foreign", cx.st.pc, cx.rkey or cx.key, vs, v))
    return v


@model("std::boxed::Box::into_raw", "std::boxed::Box::leak")
def _(cx):
    l = mk("loc", "h", cx.fr)
    v = cx.args[0]
    cx.st.mem[l] = v
    cx.I.log.append(("into_raw", cx.st.pc, cx.tys[0], v, ref(l)))
    return ref(l)


@model("std::boxed::Box::from_raw")
def _(cx):
    cx.I.log.append(("from_raw", cx.st.pc, cx.tys[0], cx.args[0]))
    return mk("boxed", cx.args[0])



# ---------------------------------------------------------------- good_lp: a problem is its objective and its constraints
LPDEF = mk("lpdef")


@model("good_lp::variable::ProblemVariables::new")
def _(cx):
    return EMPTY


@model("good_lp::variable::VariableDefinition::new", "good_lp::variable::variable")
def _(cx):
    return LPDEF


@model("good_lp::variable::VariableDefinition::name")
def _(cx):
    return cx.args[0]


def lpadd(cx, d):
    v = cx.load(cx.args[0])
    cx.I.store(cx.st, cx.args[0], seq(v, mk("one", TRUE, d)))
    return mk("lpv", length(v))


@model("good_lp::variable::ProblemVariables::add")
def _(cx):
    return lpadd(cx, cx.args[1])


@model("good_lp::variable::ProblemVariables::add_variable")
def _(cx):
    return lpadd(cx, LPDEF)


@model("good_lp::variable::ProblemVariables::minimise", "good_lp::variable::ProblemVariables::maximise")
def _(cx):
    e = lpval(cx, 1)
    if cx.last == "maximise":
        e = mk("lp", "-", const(0.0, "f64"), e)
    return agg("LP", 0, cx.args[0], e, EMPTY)


@model("good_lp::variable::UnsolvedProblem::using")
def _(cx):
    return cx.args[0]


@model("good_lp::expression::Expression::leq", "good_lp::constraint::leq")
def _(cx):
    return mk("lpc", "<=", mk("lp", "-", lpval(cx, 0), lpval(cx, 1)))


@model("good_lp::expression::Expression::geq", "good_lp::constraint::geq")
def _(cx):
    return mk("lpc", "<=", mk("lp", "-", lpval(cx, 1), lpval(cx, 0)))


@model("good_lp::expression::Expression::eq", "good_lp::constraint::eq")
def _(cx):
    return mk("lpc", "==", mk("lp", "-", lpval(cx, 0), lpval(cx, 1)))


@model("good_lp::solvers::SolverModel::add_constraint")
def _(cx):
    p = cx.args[0]
    v = cx.load(p)
    n = mk("lpcref", v)
    if v.op == "agg":
        v = agg("LP", 0, v.a[2], v.a[3], seq(v.a[4], mk("one", TRUE, cx.args[1])))
    else:
        v = mk("lpwith", v, cx.args[1])
    cx.I.store(cx.st, p, v)
    return n


@model("good_lp::solvers::SolverModel::with")
def _(cx):
    v = cx.args[0]
    return agg("LP", 0, v.a[2], v.a[3], seq(v.a[4], mk("one", TRUE, cx.args[1]))) if v.op == "agg" else mk("lpwith", v, cx.args[1])


@model("good_lp::solvers::SolverModel::solve")
def _(cx):
    v = cx.args[0]
    return ite(lit(mk("lpok", v)), ok(mk("lpsol", v)), err(mk("lperr", v)))


@model("good_lp::solvers::Solution::value")
def _(cx):
    return mapl(follow(cx, cx.args[0]), lambda s: mk("lpval", s.a[0] if s.op == "lpsol" else s, follow(cx, cx.args[1])))


def lpwith(v, c):
    return agg("LP", 0, v.a[2], v.a[3], seq(v.a[4], mk("one", TRUE, c))) if v.op == "agg" else mk("lpwith", v, c)


REBUILD["lpwith"] = lpwith
