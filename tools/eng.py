"""Value-flow analysis of the dumped MIR.

Every function is analysed once per call path, without running it: each program point gets, for every memory location,
a term (terms.py) that says which inputs and operations its value comes from. Branches are joined into decision
diagrams, loops are summarised (element-wise descriptions of what is pushed or written, sums, first matches), workspace
functions and closures are analysed in their callers' context, everything external is a model (models.py) or an opaque
operation on its arguments. No path is handed to a solver."""
import sys
from terms import *
import terms as TM

sys.setrecursionlimit(200000)


class Abort(Exception):
    pass


# ---------------------------------------------------------------- integers
_INTW = {"usize", "u64", "isize", "i64"}


def lin_parts(x):
    """(constant, {term: coefficient}) of an integer term"""
    if x.op == "c" and x.a[1] != "bool" and isinstance(x.a[0], int):
        return x.a[0], {}
    if x.op == "lin":
        d = {}
        for i in range(1, len(x.a), 2):
            d[x.a[i + 1]] = x.a[i]
        return x.a[0], d
    return 0, {x: 1}


def mklin(c, d):
    d = {t: n for t, n in d.items() if n}
    if not d:
        return const(c, "int")
    if c == 0 and len(d) == 1:
        (t, n), = d.items()
        if n == 1:
            return t
    a = []
    for t in sorted(d, key=lambda t: t.id):
        a += [d[t], t]
    return mk("lin", c, *a)


def _rb_lin(c, *a):
    r, acc = c, {}
    for i in range(0, len(a), 2):
        cc, dd = lin_parts(a[i + 1])
        r += a[i] * cc
        for t, n in dd.items():
            acc[t] = acc.get(t, 0) + a[i] * n
    return mklin(r, acc)


REBUILD["lin"] = _rb_lin


def iadd(x, y, w="usize", s=1):
    def f(x, y):
        if x.op == "c" or y.op == "c" or w in _INTW or True:
            c1, d1 = lin_parts(x)
            c2, d2 = lin_parts(y)
            d = dict(d1)
            for t, n in d2.items():
                d[t] = d.get(t, 0) + s * n
            return mklin(c1 + s * c2, d)
    return map2(x, y, f)


def isub(x, y, w="usize"):
    return iadd(x, y, w, -1)


def imul(x, y, w="usize"):
    def f(x, y):
        if x.op == "c" and y.op == "c":
            return const(x.a[0] * y.a[0], "int")
        if y.op == "c":
            x, y = y, x
        if x.op == "c" and w in _INTW:
            c, d = lin_parts(y)
            return mklin(c * x.a[0], {t: n * x.a[0] for t, n in d.items()})
        if w in _INTW:
            # product over a canonical multiset of factors
            k = 1
            fs = []
            for z in (x, y):
                if z.op == "lin" and z.a[0] == 0 and len(z.a) == 3:
                    k *= z.a[1]
                    z = z.a[2]
                fs += list(z.a[1:]) if z.op == "op" and z.a[0] == "*" else [z]
            if any(z.op == "lin" for z in fs):
                a, b = (x, y) if x.id < y.id else (y, x)
                return mk("op", "*", a, b)
            fs.sort(key=lambda t: t.id)
            p = mk("op", "*", *fs)
            return p if k == 1 else mklin(0, {p: k})
        if x.id > y.id:
            x, y = y, x
        return mk("op", "*" + w, x, y)
    return map2(x, y, f)


def i2(op, x, y, w):
    """other integer operations"""
    def f(x, y):
        a, b = num(x), num(y)
        if a is not None and b is not None:
            try:
                v = {"/": lambda: a // b if b else None, "%": lambda: a % b if b else None, "&": lambda: a & b,
                     "|": lambda: a | b, "^": lambda: a ^ b, "<<": lambda: a << b, ">>": lambda: a >> b}[op]()
                if v is not None:
                    return const(v, "int")
            except Exception:
                pass
        if op in "/%" and b and w in _INTW:
            # (b*q + r) / b with a known r below b
            c, d = lin_parts(x)
            q = {t: n for t, n in d.items() if n % b == 0}
            r = {t: n for t, n in d.items() if n % b}
            if not r:
                return mklin(c // b, {t: n // b for t, n in q.items()}) if op == "/" else const(c % b, "int")
        if op == "/" and b == 1:
            return x
        return mk("op", op + ("" if w in _INTW else w), x, y)
    return map2(x, y, f)


def ilt(x, y):
    def f(x, y):
        if x.op == "c" and y.op == "c":
            return TRUE if x.a[0] < y.a[0] else FALSE
        if x is y:
            return FALSE
        # move everything to one side and split by sign, so that a + 1 < b + 1 and a < b are one atom
        c, d = lin_parts(isub(y, x))
        if not d:
            return TRUE if c > 0 else FALSE
        pos = {t: n for t, n in d.items() if n > 0}
        neg = {t: -n for t, n in d.items() if n < 0}
        if not neg and c > 0:
            return TRUE       # unsigned
        if not pos and c <= 0:
            return FALSE
        g = 0
        for n in list(pos.values()) + list(neg.values()):
            from math import gcd
            g = gcd(g, n)
        if not pos:           # neg < c
            return lit(mk("op", "<", mklin(0, neg), const(c, "int")))
        if not neg:           # -c < pos  <=>  not (pos < -c+1)
            if -c + 1 <= 0:
                return TRUE
            return Not(lit(mk("op", "<", mklin(0, pos), const(-c + 1, "int"))))
        if c > 0:             # neg < pos + c  <=>  not (pos < neg - c + 1)
            return Not(lit(mk("op", "<", mklin(0, pos), mklin(1 - c, neg)))) if c != 1 else \
                Not(lit(mk("op", "<", mklin(0, pos), mklin(0, neg))))
        return lit(mk("op", "<", mklin(-c, neg), mklin(0, pos)))
    return map2(x, y, f)


def _b2(f):
    return as_bool(f)


def eq(x, y):
    def f(x, y):
        if x is y:
            return TRUE
        if x.op == "c" and y.op == "c":
            return TRUE if x.a[0] == y.a[0] else FALSE
        if x.op == "agg" and y.op == "agg" and len(x.a) == len(y.a):
            if x.a[1] != y.a[1]:
                return FALSE
            return And(*[eq(p, q) for p, q in zip(x.a[2:], y.a[2:])])
        if x.op == "agg" and y.op == "agg" and x.a[1] != y.a[1] and x.a[0] in ("Option", "Result"):
            return FALSE
        if x.op in ("c", "lin") or y.op in ("c", "lin"):
            c, d = lin_parts(isub(y, x))
            if not d:
                return TRUE if c == 0 else FALSE
        a, b = (x, y) if x.id < y.id else (y, x)
        return lit(mk("op", "==", a, b))
    return map2(x, y, f)


# ---------------------------------------------------------------- floats
def notnum(x):
    """the constant that is not a number"""
    return x.op == "c" and (x.a[1] == "nan" or x.a[0] != x.a[0])


def fop(op, x, y):
    def f(x, y):
        a, b = num(x), num(y)
        if a is not None and b is not None:
            try:
                v = {"f+": lambda: a + b, "f-": lambda: a - b, "f*": lambda: a * b, "f/": lambda: a / b if b else None}[op]()
                if v is not None:
                    return const(float(v), "f64")
            except Exception:
                pass
        if notnum(x):
            return x
        if notnum(y):
            return y
        if op == "f*":
            if a == 1.0:
                return y
            if b == 1.0:
                return x
            if a == -1.0:
                return fneg(y)
            if b == -1.0:
                return fneg(x)
        if op == "f+":
            if a == 0.0:
                return y
            if b == 0.0:
                return x
            if y.op == "op" and y.a[0] == "fneg":
                return fop("f-", x, y.a[1])
            if x.op == "op" and x.a[0] == "fneg":
                return fop("f-", y, x.a[1])
        if op == "f-":
            if b == 0.0:
                return x
            if a == 0.0:
                return fneg(y)
            if y.op == "op" and y.a[0] == "fneg":
                return fop("f+", x, y.a[1])
        if op == "f/" and b == 1.0:
            return x
        if op in ("f*", "f+") and x.id > y.id:
            x, y = y, x
        return mk("op", op, x, y)
    return map2(x, y, f)


def fneg(x):
    def f(x):
        if num(x) is not None:
            return const(-float(num(x)), "f64")
        if notnum(x):
            return x
        if x.op == "op" and x.a[0] == "fneg":
            return x.a[1]
        if x.op == "op" and x.a[0] == "f-":
            return fop("f-", x.a[2], x.a[1])
        return mk("op", "fneg", x)
    return mapl(x, f)


def flt(x, y):
    def f(x, y):
        a, b = num(x), num(y)
        if a is not None and b is not None:
            return TRUE if a < b else FALSE
        if notnum(x) or notnum(y):
            return FALSE
        return lit(mk("op", "f<", x, y))
    return map2(x, y, f)


def fle(x, y):
    def f(x, y):
        a, b = num(x), num(y)
        if a is not None and b is not None:
            return TRUE if a <= b else FALSE
        if notnum(x) or notnum(y):
            return FALSE
        return lit(mk("op", "f<=", x, y))
    return map2(x, y, f)


def fun(name, *xs):
    """a pure scalar function"""
    def go(done, rest):
        if not rest:
            return mk("op", name, *done)
        return mapl(rest[0], lambda u: go(done + [u], rest[1:]))
    return go([], list(xs))


def _rb_op(op, *a):
    w = op.lstrip("*/%&|^<>=!")
    if op == "*":
        r = a[0]
        for y in a[1:]:
            r = imul(r, y, "usize")
        return r
    if op.startswith("*"):
        return imul(a[0], a[1], op[1:])
    if op == "==":
        r = eq(*a)
        return r
    if op == "<":
        return ilt(*a)
    if op == "f<":
        return flt(*a)
    if op == "f<=":
        return fle(*a)
    if op in ("f+", "f-", "f*", "f/"):
        return fop(op, *a)
    if op == "fneg":
        return fneg(a[0])
    if op[0] in "/%&|^" and len(a) == 2:
        return i2(op[0], a[0], a[1], op[1:] or "usize")
    if op == "isnan":
        return isnan(a[0])
    return fun(op, *a)


def isnan(x):
    def f(x):
        if x.op == "c":
            return TRUE if notnum(x) else FALSE
        if x.op == "idx" and x.a[0].op == "inv":      # the inverse of a matrix that has one
            return FALSE
        return lit(mk("op", "isnan", x))
    return mapl(x, f)


REBUILD["op"] = _rb_op


def cast(x, frm, to):
    def f(x):
        v = num(x)
        fl = to.startswith("f")
        if v is not None:
            if fl:
                return const(float(v), "f64")
            if frm.startswith("f"):
                return const(int(v), "int")
            bits = {"u8": 8, "u16": 16, "u32": 32, "usize": 64, "u64": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64}.get(to)
            if bits:
                v &= (1 << bits) - 1
                if to[0] == "i" and v >> (bits - 1):
                    v -= 1 << bits
            return const(v, "int")
        if frm == to or {frm, to} <= {"usize", "u64"} or {frm, to} <= {"isize", "i64"}:
            return x
        # widening twice is widening once
        if x.op == "cast" and bits_(x.a[1]) and bits_(frm) and bits_(to) and x.a[0][0] == "u" and bits_(x.a[1]) >= bits_(x.a[0]) and bits_(to) >= bits_(frm):
            return cast(x.a[2], x.a[0], to)
        return mk("cast", frm, to, x)
    return mapl(x, f)


def bits_(w):
    return {"u8": 8, "u16": 16, "u32": 32, "usize": 64, "u64": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64}.get(w)


REBUILD["cast"] = lambda f, t, x: cast(x, f, t)

# ---------------------------------------------------------------- sequences
EMPTY = mk("empty")


def one(e, c=TRUE):
    return mk("one", c, e)


REBUILD["one"] = lambda c, e: mk("one", as_bool(c), e)


def seq(base, *segs):
    segs = [s for s in segs if not (s.op == "one" and s.a[0] is FALSE)]
    if base.op == "seq":
        segs = list(base.a[1:]) + segs
        base = base.a[0]
    if not segs:
        return base
    if base.op == "ite":
        return mapl(base, lambda b: seq(b, *segs))
    if is_arr(base):
        segs = [one(e) for e in base.a[2:]] + segs
        base = EMPTY
    return mk("seq", base, *segs)


REBUILD["seq"] = lambda b, *s: seq(b, *s)


def segs_of(v):
    """(base, [segments]) of a sequence value"""
    if v.op == "seq":
        return v.a[0], list(v.a[1:])
    if v is EMPTY:
        return EMPTY, []
    if is_arr(v):
        return EMPTY, [one(e) for e in v.a[2:]]
    return v, []


def _joinseq(at, g, h):
    """choice between two sequences that share their beginning: a sequence with conditional elements"""
    if g.op != "seq" and h.op != "seq":
        return None
    bg, sg = segs_of(g)
    bh, sh = segs_of(h)
    if bg is not bh:
        return None
    k = 0
    while k < len(sg) and k < len(sh) and sg[k] is sh[k]:
        k += 1
    if k == 0 and bg is EMPTY and not (sg == [] or sh == []):
        if not (len(sg) == len(sh) and all(x.op == y.op == "one" and x.a[0] is y.a[0] for x, y in zip(sg, sh))):
            return None
    tg, th = sg[k:], sh[k:]
    l = mk("ite", at, TRUE, FALSE)
    if len(tg) == len(th) >= 1 and all(x.op == y.op == "one" and x.a[0] is y.a[0] for x, y in zip(tg, th)):
        return mk("seq", bg, *(sg[:k] + [x if x is y else one(ite(l, x.a[1], y.a[1]), x.a[0]) for x, y in zip(tg, th)]))
    res = sg[:k] + [gate(s, l) for s in tg] + [gate(s, Not(l)) for s in th]
    return mk("seq", bg, *res)


def gate(s, c):
    if s.op == "one":
        return mk("one", And(s.a[0], c), s.a[1])
    if s.op in ("w", "wm"):
        return mk(s.op, And(s.a[0], c), *s.a[1:])
    if s.op == "rep":
        n = s.a[0]
        bvs, body = open_(s)
        return bind("rep", bvs, body[0], *[gate(x, c) for x in body[1:]])
    return mk("gated", c, s)


_oc = [0]


def open_(t):
    """binder opened with fresh variables: ([variables], [body])"""
    n = t.a[0]
    bvs = t.a[1:1 + n]
    _oc[0] += 1
    vs = [var("o", t.id, i) for i in range(n)]
    m = dict(zip(bvs, vs))
    return vs, [subst(b, m) for b in t.a[1 + n:]]


def inst(t, *vals):
    n = t.a[0]
    m = dict(zip(t.a[1:1 + n], vals))
    return [subst(b, m) for b in t.a[1 + n:]]


TM._joinseq = _joinseq


def gen(n, flag="o"):
    return mk("gen", n, flag)


def rep(k, g, segs):
    return bind("rep", [k], g, *segs)


def wrs(base, *segs):
    """scattered writes into an array: base, then w(cond, index, value) segments or reps of them"""
    if base.op == "wrs":
        return mk("wrs", base.a[0], *(list(base.a[1:]) + list(segs)))
    return mk("wrs", base, *segs)


def length(v):
    if v.op == "ite":
        return mapl(v, length)
    if v is EMPTY:
        return const(0, "int")
    if is_arr(v):
        return const(len(v.a) - 2, "int")
    if v.op == "seq":
        r = const(0, "int") if v.a[0] is EMPTY else length(v.a[0])
        for s in v.a[1:]:
            r = iadd(r, seglen(s))
        return r
    if v.op == "vr":
        return length(v.a[0])
    if v.op in ("wrs", "updi"):
        return length(v.a[0])
    if v.op == "fill":
        return v.a[0]
    if v.op == "sl":
        return isub(v.a[2], v.a[1])
    if v.op == "box":
        return length(v.a[0])
    if v.op == "sorted" or v.op == "rev":
        return length(v.a[0])
    if v.op == "c" and v.a[1] == "str":
        return const(len(v.a[0].encode()), "int")
    return mk("len", v)


REBUILD["len"] = length


def seglen(s):
    if s.op == "one":
        return ite(s.a[0], const(1, "int"), const(0, "int")) if s.a[0] is not TRUE else const(1, "int")
    if s.op == "rep":
        vs, body = open_(s)
        tot = const(0, "int")
        for x in body[1:]:
            tot = iadd(tot, seglen(x))
        if vs[0] not in tot.fv and tot.op != "ite":
            return imul(body[0].a[0], tot)
        return bind("isum", vs, body[0], tot)
    return mk("seglen", s)


def index(v, i):
    if v.op == "ite":
        return mapl(v, lambda x: index(x, i))
    if i.op == "ite":
        return mapl(i, lambda j: index(v, j))
    if v is BOT or i is BOT:
        return BOT
    n = num(i)
    if is_arr(v):
        if i.op == "agg" and i.a[0] == "tuple":
            r, c = num(i.a[2]), num(i.a[3])
            if r is not None and c is not None:
                return v.a[2 + int(c) * v.a[1] + int(r)] if int(c) * v.a[1] + int(r) < len(v.a) - 2 else BOT
            return mk("idx", v, i)
        if n is not None:
            return v.a[2 + int(n)] if 0 <= n < len(v.a) - 2 else BOT
        if len(set(v.a[2:])) == 1:
            return v.a[2]
        return mk("idx", v, i)
    if v.op == "seq" and v.a[0] is EMPTY:
        ss = v.a[1:]
        off = 0
        for s in ss:
            if s.op == "one" and s.a[0] is TRUE:
                if n is not None and n == off:
                    return s.a[1]
                off += 1
                continue
            if s.op == "rep" and len(ss) == 1:
                r = _idxrep(s, i)
                if r is not None:
                    return r
            break
        return mk("idx", v, i)
    if v.op == "fill":
        return v.a[1]
    if v.op == "sl":
        return index(v.a[0], iadd(v.a[1], i))
    if v.op == "vr":
        return index(v.a[0], i)
    if v.op == "row":
        return index(v.a[0], tup(v.a[1], i.a[3] if i.op == "agg" and i.a[0] == "tuple" else i))
    if v.op == "col":
        return index(v.a[0], tup(i.a[2] if i.op == "agg" and i.a[0] == "tuple" else i, v.a[1]))
    if v.op == "updi":
        if v.a[1] is i:
            return v.a[2]
        if num(v.a[1]) is not None and n is not None:
            return index(v.a[0], i)
        d = isub(v.a[1], i) if i.op != "agg" and v.a[1].op != "agg" else None
        if d is not None and num(d):
            return index(v.a[0], i)
        return mk("idx", v, i)
    if v.op == "mat" and i.op == "agg":
        # mat(nrows, ncols, order, data)
        r, c = i.a[2], i.a[3]
        nr, nc, order, data = v.a
        if order == "r":
            return index2(data, r, c, nc)
        return index2(data, c, r, nr)
    if v.op == "matmul" and i.op == "agg":
        k = var("mm", v.id)
        n_ = ncols(v.a[0])
        e = fop("f*", index(v.a[0], tup(i.a[2], k)), index(v.a[1], tup(k, i.a[3])))
        return bind("fsum", [k], gen(n_), TRUE, e)
    return mk("idx", v, i)


def index2(data, q, r, m):
    """data[q * m + r]"""
    mm = num(m)
    if data.op == "seq" and data.a[0] is EMPTY and len(data.a) == 2 and data.a[1].op == "rep" and mm is not None:
        body = inst(data.a[1], q)[1:]
        if len(body) == mm and all(s.op == "one" and s.a[0] is TRUE for s in body):
            if num(r) is not None:
                return body[int(num(r))].a[1]
            return mk("idx", arr2(mm, *[s.a[1] for s in body]), r)
    if mm is not None:
        return index(data, iadd(imul(q, m), r))
    return mk("idx", data, tup(q, r))


def arr2(rows, *es):
    return mk("agg", "arr", rows, *es)


def _idxrep(s, i):
    vs, body = open_(s)
    segs = body[1:]
    if len(segs) == 1 and segs[0].op == "one" and segs[0].a[0] is not TRUE and segs[0].a[1].op != "loop":
        # the i-th element that passes the filter
        return subst(segs[0].a[1], {vs[0]: bind("sel", vs, body[0], segs[0].a[0], i)})
    if len(segs) == 1 and segs[0].op == "one" and segs[0].a[0] is TRUE:
        return subst(segs[0].a[1], {vs[0]: i})
    if all(x.op == "one" and x.a[0] is TRUE for x in segs):
        m = len(segs)
        c, d = lin_parts(i)
        if all(n % m == 0 for n in d.values()):
            q = mklin(c // m, {t: n // m for t, n in d.items()})
            return subst(segs[c % m].a[1], {vs[0]: q})
    return None


def updi(v, i, x):
    if v.op == "ite":
        return mapl(v, lambda u: updi(u, i, x))
    if v is BOT:
        return BOT
    n = num(i)
    if is_arr(v):
        if i.op == "agg" and i.a[0] == "tuple":
            r, c = num(i.a[2]), num(i.a[3])
            n = None if r is None or c is None else int(c) * v.a[1] + int(r)
        if n is not None and 0 <= n < len(v.a) - 2:
            a = list(v.a)
            a[2 + int(n)] = x
            return mk("agg", *a)
    if v.op == "updi" and v.a[1] is i:
        return mk("updi", v.a[0], i, x)
    if v.op == "seq" and v.a[0] is EMPTY and n is not None and 0 <= n < len(v.a) - 1 and all(s.op == "one" and s.a[0] is TRUE for s in v.a[1:]):
        a = list(v.a)
        a[1 + int(n)] = one(x)
        return mk("seq", *a)
    if v.op == "vr":
        return mk("vr", updi(v.a[0], i, x))
    return mk("updi", v, i, x)


REBUILD["idx"] = index
REBUILD["updi"] = updi


def ncols(v):
    if is_arr(v):
        return const((len(v.a) - 2) // v.a[1], "int")
    if v.op == "mat":
        return v.a[1]
    if v.op == "matmul":
        return ncols(v.a[1])
    if v.op in ("wrs", "updi"):
        return ncols(v.a[0])
    if v.op == "fillm":
        return v.a[1]
    if v.op == "ite":
        return mapl(v, ncols)
    if v.op == "vr":
        return ncols(v.a[0])
    return mk("ncols", v)


def nrows(v):
    if is_arr(v):
        return const(v.a[1], "int")
    if v.op == "mat":
        return v.a[0]
    if v.op == "matmul":
        return nrows(v.a[0])
    if v.op in ("wrs", "updi"):
        return nrows(v.a[0])
    if v.op == "fillm":
        return v.a[0]
    if v.op == "ite":
        return mapl(v, nrows)
    if v.op == "vr":
        return nrows(v.a[0])
    return mk("nrows", v)


REBUILD["ncols"] = ncols
REBUILD["nrows"] = nrows

# ---------------------------------------------------------------- memory
TRACE = mk("loc", "trace")


def ref(loc, *path):
    return mk("ref", loc, *path)


def pf(i, v=0):
    return mk("pf", i, v)


def pvar(e):
    """the variant that a field step goes through (-1: variant 0 of an enumeration), None when not stated"""
    return None if e.a[1] == 0 else max(e.a[1], 0)


def pi(i):
    return mk("pi", i)


def vr(v):
    return mk("vr", v)


REBUILD["vr"] = lambda v: mapl(v, vr)


class St:
    __slots__ = ("mem", "pc")

    def __init__(self, mem=None, pc=TRUE):
        self.mem = mem if mem is not None else {}
        self.pc = pc

    def clone(self):
        return St(dict(self.mem), self.pc)


def merge(sts):
    sts = [s for s in sts if s is not None and s.pc is not FALSE]
    if not sts:
        return None
    r = sts[0]
    for s in sts[1:]:
        tot = Or(r.pc, s.pc)
        # a condition that tells the two apart
        c = restrict(r.pc, tot)
        mem = {}
        for l, v in r.mem.items():
            w = s.mem.get(l)
            if w is v:
                mem[l] = v
            elif w is not None:
                mem[l] = ite(c, v, w)
        for l, w in s.mem.items():
            if l not in r.mem and l.a[0] == "g":
                mem[l] = w
        for l, v in r.mem.items():
            if l not in s.mem and l.a[0] == "g":
                mem[l] = v
        r = St(mem, tot)
    return r


PROJ = {}


class Interp:
    def __init__(self, dump, models, noinline=()):
        self.d = dump
        self.types = dump["types"]
        self.bodies = {b["id"]: b for b in dump["bodies"]}
        self.byname = {}
        for b in dump["bodies"]:
            self.byname.setdefault(b["name"], b)
        self.models = models
        self.kinds = {}        # loop key -> {loc: kind}
        self.cfg = {}
        self.stack = []
        self.loops = []
        self.unmodelled = {}
        self.calls = 0
        self.depth = 0
        self.contracts = {}
        self.log = []          # (what, ...) notes by models
        self.adts = {a["name"]: a for a in dump["adts"]}
        self.notes = {}
        self.trace_calls = None
        self.maxdepth = 80
        self.logstores = False

    # ------------------------------------------------ types
    def ty(self, i):
        return self.types[i] if isinstance(i, int) else None

    def tystr(self, i):
        t = self.ty(i)
        return t["s"] if t else ""

    def width(self, i):
        t = self.ty(i)
        k = t["k"]
        if k in ("int", "uint", "float"):
            return t["w"]
        if k == "bool":
            return "bool"
        if k == "char":
            return "u32"
        return k

    def strip(self, i):
        """type behind references"""
        t = self.ty(i)
        while t and t["k"] in ("ref", "ptr"):
            i = t["e"]
            t = self.ty(i)
        return i

    # ------------------------------------------------ memory access
    def load(self, st, p):
        """value behind the pointer p"""
        if p.op == "vr":
            return p.a[0]
        if p.op == "ref":
            v = st.mem.get(p.a[0])
            if v is None:
                v = self.default(p.a[0])
            for e in p.a[1:]:
                v = self.proj(st, v, e)
            return v
        if p.op == "ite":
            return mapl(p, lambda q: self.load(st, q))
        if p is BOT:
            return BOT
        if p.op == "ba":
            return self.load(st, p.a[0])
        l = mk("loc", "g", p)
        v = st.mem.get(l)
        return v if v is not None else self.default(l)

    def default(self, loc):
        if loc.a[0] == "g":
            return mk("*", loc.a[1])
        return BOT

    def proj(self, st, v, e):
        if v.op == "ba":
            v = self.load(st, v.a[0])
        if v.op == "ite":
            return mapl(v, lambda x: self.proj(st, x, e))
        if e.op == "pf":
            if is_arr(v):
                return index(v, const(e.a[0], "int"))
            return fld(v, e.a[0], pvar(e)) if v.op != "agg" or v.a[0] != "box" else fld(v, e.a[0])
        if e.op == "pi":
            return index(v, e.a[0])
        if e.op == "prow":
            return mk("row", v, e.a[0])
        if e.op == "pcol":
            return col(v, e.a[0])
        if e.op == "psl":
            return slice_(v, e.a[0], e.a[1])
        if e.op == "pcols":
            return mk("cols", v, e.a[0], e.a[1])
        if e.op == "pm":
            r = self.models["!mget"](v, e.a[0])
            # a loop over the map sees every key once: its own rounds do not disturb the later ones
            if r.op == "mget" and e.a[0].op == "mkey" and v.op == "v":
                return e.a[1]
            return r
        raise Abort("projection " + e.op)

    def store(self, st, p, val, weak=None):
        """writes val behind pointer p"""
        if p.op == "ba":
            return self.store(st, p.a[0], val)
        if p.op == "ref":
            loc = p.a[0]
            path = list(p.a[1:])
        elif p.op == "ite" and samepath(p) and not is_arr(st.mem.get(leaves(p)[0].a[0], BOT)):
            q = leaves(p)[0]
            loc = q.a[0]
            path = [e if all(r.a[n] is e for r in leaves(p)) else
                    mk(e.op, *[x if type(x) is not T else mapl(p, lambda r: r.a[n].a[j]) for j, x in enumerate(e.a)])
                    for n, e in enumerate(q.a) if n]
        elif p.op == "ite":
            # weak update of every possible target
            for c, q in gleaves(p):
                old = self.load(st, q)
                self.store(st, q, ite(c, val, old))
            return
        elif p is BOT:
            return
        elif p.op == "vr":
            return
        else:
            loc, path = mk("loc", "g", p), []
        if self.logstores and loc.a[0] == "g":
            self.log.append(("store", st.pc, loc.a[1], tuple(path), val))
        if not path:
            st.mem[loc] = val
            return
        old = st.mem.get(loc)
        if old is None:
            old = self.default(loc)
        st.mem[loc] = self.setpath(st, old, path, val)

    def setpath(self, st, v, path, val):
        if not path:
            return val
        if v.op == "ite":
            return mapl(v, lambda x: self.setpath(st, x, path, val))
        e = path[0]
        if v.op == "ba":
            self.store(st, ref(*(list(v.a[0].a) + path)) if v.a[0].op == "ref" else v.a[0], val)
            return v
        if e.op == "pf":
            if is_arr(v):
                e = pi(const(e.a[0], "int"))
            else:
                return upd(v, e.a[0], pvar(e), self.setpath(st, self.proj(st, v, e), path[1:], val))
        if e.op == "prow" and len(path) > 1 and path[1].op == "pi":
            i = tup(e.a[0], path[1].a[0])
            return updi(v, i, self.setpath(st, index(v, i), path[2:], val))
        if e.op == "pcol" and len(path) > 1 and path[1].op == "pi":
            i = tup(path[1].a[0], e.a[0])
            return updi(v, i, self.setpath(st, index(v, i), path[2:], val))
        if e.op == "psl" and len(path) > 1 and path[1].op == "pi":
            i = iadd(e.a[0], path[1].a[0])
            return updi(v, i, self.setpath(st, index(v, i), path[2:], val))
        if e.op == "pi":
            return updi(v, e.a[0], self.setpath(st, index(v, e.a[0]), path[1:], val))
        if e.op == "pm":
            return self.models["!mput"](v, e.a[0], self.setpath(st, self.proj(st, v, e), path[1:], val))
        if e.op in ("psl", "prow", "pcol", "pcols"):
            return mk("updp", v, e, val)
        raise Abort("store through " + e.op)

    def sub(self, p, *es):
        """pointer to a part of what p points to"""
        if p.op == "ite":
            return mapl(p, lambda q: self.sub(q, *es))
        if p is BOT:
            return BOT
        if p.op == "ba":
            return self.sub(p.a[0], *es)
        if p.op == "vr":
            v = p.a[0]
            for e in es:
                v = self.proj(None, v, e)
            return vr(v) if v.op != "ite" else mapl(v, vr)
        if p.op != "ref":
            return self.sub(ref(mk("loc", "g", p)), *es)
        a = list(p.a)
        for e in es:
            l = a[-1]
            if l.op == "psl" and e.op == "pi" and e.a[0].op != "agg":
                a[-1] = pi(iadd(l.a[0], e.a[0]))
            elif l.op == "psl" and e.op == "psl":
                a[-1] = mk("psl", iadd(l.a[0], e.a[0]), iadd(l.a[0], e.a[1]))
            elif l.op == "pcol" and e.op == "pi" and e.a[0].op != "agg":
                a[-1] = pi(tup(e.a[0], l.a[0]))
            elif l.op == "prow" and e.op == "pi" and e.a[0].op != "agg":
                a[-1] = pi(tup(l.a[0], e.a[0]))
            elif l.op == "pcols" and e.op == "pcol":
                a[-1] = mk("pcol", iadd(l.a[0], e.a[0]))
            elif l.op == "pcols" and e.op == "pi" and e.a[0].op == "agg":
                a[-1] = pi(tup(e.a[0].a[2], iadd(l.a[0], e.a[0].a[3])))
            else:
                a.append(e)
        return mk("ref", *a)

    # ------------------------------------------------ places
    def place_ref(self, st, fr, pl):
        p = ref(mk("loc", "l", fr, pl[0]))
        dc = 0
        for e in pl[1]:
            if e == "*":
                v = self.load(st, p)
                if v.op == "ba":
                    v = v.a[0]
                p = v
                if p.op not in ("ref", "ite", "vr", "bot"):
                    p = ref(mk("loc", "g", p))
            elif e[0] == "f":
                p = self.sub(p, pf(e[1], dc))
                dc = 0
            elif e[0] == "dc":
                dc = e[1] or -1
            elif e[0] == "i":
                i = self.load(st, ref(mk("loc", "l", fr, e[1])))
                p = self.sub(p, pi(i)) if i.op != "ite" else mapl(i, lambda j: self.sub(p, pi(j)))
            elif e[0] == "ci":
                if e[3]:
                    n = isub(length(self.load(st, p)), const(e[1], "int"))
                else:
                    n = const(e[1], "int")
                p = self.sub(p, pi(n))
            elif e[0] == "sub":
                L = length(self.load(st, p))
                a = const(e[1], "int")
                b = isub(L, const(e[2], "int")) if e[3] else const(e[2], "int")
                p = self.sub(p, mk("psl", a, b))
            else:
                raise Abort("place " + str(e))
        return p

    def read(self, st, fr, pl):
        return self.load(st, self.place_ref(st, fr, pl))

    def constant(self, ty, v):
        t = self.ty(ty)
        if "v" in v:
            if t["k"] == "bool":
                return TRUE if v["v"] else FALSE
            return const(v["v"], "int")
        if "fl" in v:
            s = v["fl"]
            try:
                f = float(s)
            except ValueError:
                f = None
            if f is not None and f == f:
                return const(f, "f64")
            return const(s, "nan")
        if "str" in v:
            return vr(const(v["str"], "str"))
        if "ref" in v:
            inner = v["ref"]
            e = self.ty(t["e"]) if "e" in t else None
            return vr(self.constant(t["e"], inner)) if e else mk("konst", str(v)[:200], ty)
        if "bytes" in v:
            r = self.decode(ty, v["bytes"])
            return r if r is not None else mk("bytes", bytes(v["bytes"]), t["s"])
        if "zst" in v:
            if t["k"] == "fndef":
                return mk("fn", ty)
            if t["k"] == "tuple":
                return UNIT
            if t["k"] == "closure":
                return agg("closure", t["inst"])
            if t["k"] == "array" and t.get("n") == 0:
                return arr2(0)
            if t["k"] == "adt":
                return agg(t["n"], 0)
            return UNIT
        if "static" in v:
            return mk("static", v["static"])
        if "fnref" in v:
            return mk("fnref", v["fnref"])
        return mk("konst", str(sorted(v.items()))[:200], ty)

    def decode(self, ty, by):
        t = self.ty(ty)
        import struct
        if t["k"] in ("int", "uint"):
            return const(int.from_bytes(bytes(by), "little", signed=t["k"] == "int"), "int")
        if t["k"] == "float" and len(by) == 8:
            return const(struct.unpack("<d", bytes(by))[0], "f64")
        if t["k"] == "array" and t.get("n"):
            n = t["n"]
            if n and len(by) % n == 0:
                s = len(by) // n
                es = [self.decode(t["e"], by[i * s:(i + 1) * s]) for i in range(n)]
                if all(e is not None for e in es):
                    return arr2(n, *es)
        if t["k"] == "adt" and t["ak"] == "Struct":
            fs = t["v"][0]["f"]
            if len(fs) == 1:
                x = self.decode(fs[0][1], by)
                if x is not None:
                    return agg(t["n"], 0, x) if not self.isvec(ty) else x
        if t["k"] == "adt" and t["ak"] == "Enum" and t["n"] == "std::option::Option":
            a = t["a"][0]
            w = self.ty(a)
            if w["k"] in ("int", "uint"):
                s = len(by) // 2
                d = int.from_bytes(bytes(by[:s]), "little")
                return some(self.decode(a, by[s:])) if d == 1 else NONE
        if t["k"] == "adt" and t["ak"] == "Enum" and len(by) == 1 and all(not x["f"] for x in t["v"]):
            for i, x in enumerate(t["v"]):
                if x["d"] % 256 == by[0]:
                    return agg(tag(t["n"]), i)
        return None

    def isvec(self, ty):
        return False

    def operand(self, st, fr, o):
        if o[0] in ("c", "m"):
            return self.read(st, fr, o[1])
        if o[0] == "k":
            return self.constant(o[1], o[2])
        return FALSE

    def optype(self, b, o):
        if o[0] == "k":
            return o[1]
        return self.placetype(b, o[1])

    def placetype(self, b, pl):
        t = b["locals"][pl[0]]
        for e in pl[1]:
            T_ = self.ty(t)
            if e == "*":
                t = T_["e"]
            elif e[0] == "f":
                t = e[2]
            elif e[0] in ("i", "ci"):
                t = T_["e"]
            elif e[0] == "cast":
                t = e[1]
        return t

    # ------------------------------------------------ rvalues
    def rvalue(self, st, fr, b, r):
        k = r[0]
        if k == "use":
            o = r[1]
            if o[0] == "c" and self.isbox(self.placetype(b, o[1])):
                return mk("ba", self.place_ref(st, fr, o[1]))
            return self.operand(st, fr, o)
        if k == "ref" or k == "addr":
            return self.place_ref(st, fr, r[2])
        if k == "agg":
            vs = [self.operand(st, fr, o) for o in r[2]]
            h = r[1]
            if h[0] == "array":
                return arr2(len(vs), *vs)
            if h[0] == "tuple":
                return tup(*vs)
            if h[0] == "adt":
                t = self.ty(h[1])
                if h[3] is not None and t["ak"] == "Union":
                    return agg(t["n"], 0, *vs)
                return agg(tag(t["n"]), h[2], *vs)
            if h[0] == "closure":
                return agg("closure", self.ty(h[1])["inst"], *vs)
            if h[0] == "rawptr":
                return vs[0] if vs[1] is UNIT else mk("fat", vs[0], vs[1])
            return mk("aggx", *vs)
        if k == "bin":
            return self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), self.optype(b, r[2]))
        if k == "cbin":
            return tup(self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), self.optype(b, r[2])), FALSE)
        if k == "cast":
            return self.castv(st, fr, b, r)
        if k == "discr":
            v = self.read(st, fr, r[1])
            t = self.ty(self.placetype(b, r[1]))
            return self.discr(v, t)
        if k == "len":
            return length(self.read(st, fr, r[1]))
        if k == "rep":
            v = self.operand(st, fr, r[1])
            if r[2] is not None and r[2] <= 64:
                return arr2(r[2], *([v] * r[2]))
            return mk("fill", const(r[2] or 0, "int"), v)
        if k == "un":
            v = self.operand(st, fr, r[2])
            if r[1] == "Not":
                if self.ty(self.optype(b, r[2]))["k"] == "bool":
                    return Not(as_bool(v))
                return fun("~", v)
            if r[1] == "Neg":
                if self.ty(self.optype(b, r[2]))["k"] == "float":
                    return fneg(v)
                return isub(const(0, "int"), v)
            if r[1] == "PtrMetadata":
                return self.ptrlen(st, v)
            return fun(r[1], v)
        raise Abort("rvalue " + k)

    def ptrlen(self, st, v):
        def f(p):
            if p.op == "fat":
                return p.a[1]
            return length(self.load(st, p))
        return mapl(v, f)

    def discr(self, v, t):
        def f(x):
            if x.op == "agg":
                vs = t.get("v") if t["k"] == "adt" else None
                if vs and x.a[1] < len(vs):
                    return const(vs[x.a[1]]["d"], "int")
                return const(x.a[1], "int")
            if x.op == "updf":
                return f(x.a[0])
            if t["k"] == "adt" and len(t["v"]) == 2:
                l = lit(mk("is1", x))
                return ite(l, const(t["v"][1]["d"], "int"), const(t["v"][0]["d"], "int"))
            return mk("discr", x)
        return mapl(v, f)

    def isbox(self, i):
        t = self.ty(i)
        return t["k"] == "adt" and t["n"] in ("std::boxed::Box", "alloc::boxed::Box")

    def binop(self, st, op, x, y, ty):
        w = self.width(ty)
        t = self.ty(ty)
        if x is BOT or y is BOT:
            return BOT
        op = op.replace("Unchecked", "").replace("WithOverflow", "")
        fl = t["k"] == "float"
        if op in ("Add", "Sub", "Mul", "Div", "Rem") and fl:
            return fop({"Add": "f+", "Sub": "f-", "Mul": "f*", "Div": "f/", "Rem": "f%"}[op], x, y) if op != "Rem" else fun("f%", x, y)
        if op == "Add":
            return iadd(x, y, w)
        if op == "Sub":
            return isub(x, y, w)
        if op == "Mul":
            return imul(x, y, w)
        if op in ("Div", "Rem"):
            return i2("/" if op == "Div" else "%", x, y, w)
        if op in ("BitAnd", "BitOr", "BitXor") and w == "bool":
            x, y = as_bool(x), as_bool(y)
            return {"BitAnd": And, "BitOr": Or}[op](x, y) if op != "BitXor" else ite(x, Not(y), y)
        if op in ("BitAnd", "BitOr", "BitXor", "Shl", "Shr"):
            return i2({"BitAnd": "&", "BitOr": "|", "BitXor": "^", "Shl": "<<", "Shr": ">>"}[op], x, y, w)
        if op in ("Eq", "Ne"):
            if w == "bool":
                r = ite(as_bool(x), as_bool(y), Not(as_bool(y)))
            elif t["k"] in ("ptr", "ref", "fnptr"):
                r = map2(x, y, self.ptreq)
            elif fl:
                r = self.feq(x, y)
            else:
                r = eq(x, y)
            return r if op == "Eq" else Not(r)
        if fl:
            return {"Lt": lambda: flt(x, y), "Le": lambda: fle(x, y), "Gt": lambda: flt(y, x), "Ge": lambda: fle(y, x)}[op]()
        if op in ("Lt", "Le", "Gt", "Ge"):
            if w == "bool":
                x, y = as_bool(x), as_bool(y)
                x, y = [ite(z, const(1, "int"), const(0, "int")) for z in (x, y)]
            return {"Lt": lambda: ilt(x, y), "Le": lambda: Not(ilt(y, x)), "Gt": lambda: ilt(y, x), "Ge": lambda: Not(ilt(x, y))}[op]()
        if op == "Offset":
            return fun("offset", x, y)
        if op == "Cmp":
            return mk("cmp", x, y)
        return fun(op, x, y)

    def feq(self, x, y):
        def f(x, y):
            if x is y and x.op == "c":
                return TRUE
            if x.op == "c" and y.op == "c":
                return TRUE if x.a[0] == y.a[0] else FALSE
            a, b = (x, y) if x.id < y.id else (y, x)
            return lit(mk("op", "f==", a, b))
        return map2(x, y, f)

    def ptreq(self, p, q):
        if p is q:
            return TRUE
        z = [x for x in (p, q) if isc(x, 0)]
        if z:
            o = q if z[0] is p else p
            if o.op in ("ref", "vr"):
                return FALSE
        if p.op == "c" and q.op == "c":
            return TRUE if p.a[0] == q.a[0] else FALSE
        a, b = (p, q) if p.id < q.id else (q, p)
        return lit(mk("op", "==", a, b))

    def castv(self, st, fr, b, r):
        kind, o, ty = r[1], r[2], r[3]
        if kind == "BoxDerefTransmute":
            base = [o[1][0], o[1][1][:-1]] if o[1][1] else o[1]
            v = self.read(st, fr, base)
            if v.op == "ba":
                return v.a[0]
            p = self.place_ref(st, fr, base)
            if v.op == "ite":
                return mapl(v, lambda x: x.a[0] if x.op == "ba" else p)
            if v.op in ("boxraw",):
                return v.a[0]
            return p
        v = self.operand(st, fr, o)
        frm = self.optype(b, o)
        if kind in ("IntToInt", "IntToFloat", "FloatToInt", "FloatToFloat"):
            if self.ty(frm)["k"] == "bool":
                v = ite(as_bool(v), const(1, "int"), const(0, "int"))
                return v
            return cast(v, self.width(frm), self.width(ty))
        if kind.startswith("PointerCoercion") or kind in ("PtrToPtr",):
            return v
        if kind == "Transmute":
            a, c = self.ty(frm), self.ty(ty)
            if a["k"] in ("ptr", "ref", "adt") and c["k"] in ("ptr", "ref"):
                return v
            return fun("transmute:" + c["s"], v) if a["s"] != c["s"] else v
        return fun("cast:" + kind, v)

    # ------------------------------------------------ functions
    def cfg_of(self, b):
        c = self.cfg.get(b["id"])
        if c is None:
            c = self.cfg[b["id"]] = Cfg(b)
        return c

    def run(self, b, args, st, fr):
        """analyses body b with argument values; returns the result and leaves the state in st (pc FALSE: diverges)"""
        if self.depth > self.maxdepth or any(x[0] == b["id"] for x in self.stack[-60:]) and sum(1 for x in self.stack if x[0] == b["id"]) > 2:
            return mk("app", "recursion:" + b["name"], *args)
        self.depth += 1
        self.calls += 1
        self.stack.append((b["id"], fr))
        try:
            for i, a in enumerate(args):
                st.mem[mk("loc", "l", fr, i + 1)] = a
            c = self.cfg_of(b)
            pc0 = st.pc
            outs = self.region(b, c, fr, c.entry, set(c.blocks), {c.entry: [st]}, None)
            end = merge(outs.get("ret", []))
            if end is None:
                st.pc = FALSE
                return BOT
            rl = mk("loc", "l", fr, 0)
            v = end.mem.get(rl, UNIT)
            st.mem = {l: x for l, x in end.mem.items() if not (l.a[0] == "l" and l.a[1] is fr)}
            st.pc = end.pc
            return v
        finally:
            self.stack.pop()
            self.depth -= 1

    def region(self, b, c, fr, entry, nodes, incoming, loop):
        """analyses the blocks `nodes` in topological order; loops in it are summarised. Returns {target: [states]} for
        the edges that leave the region ('ret' for returns, `entry` for back edges when loop)."""
        outs = {}
        order = [n for n in c.rpo if n in nodes]
        done = set()
        first = True
        for n in order:
            if n in done:
                continue
            if n == entry and loop is not None:
                sts = incoming.get(n, []) if first else []
            else:
                sts = incoming.get(n, [])
            first = False
            lp = c.loopat.get(n)
            if lp is not None and n != (loop[0] if loop else None):
                done |= lp
                s = merge(sts)
                if s is None:
                    continue
                for t, ss in self.cfgloop(b, c, fr, n, lp, s).items():
                    if t == "ret":
                        outs.setdefault("ret", []).extend(ss)
                    elif t in nodes and not (loop is not None and t == entry):
                        incoming.setdefault(t, []).extend(ss)
                    else:
                        outs.setdefault(t, []).extend(ss)
                continue
            done.add(n)
            s = merge(sts)
            if s is None or s.pc is FALSE:
                continue
            for t, s2 in self.block(b, c, fr, n, s if len(sts) > 1 else s.clone()):
                if s2 is None or s2.pc is FALSE:
                    if loop is not None and t not in nodes:
                        self.pruned.add((loop[0], n, t))
                    continue
                if t == "ret":
                    outs.setdefault("ret", []).append(s2)
                elif t in nodes and not (loop is not None and t == entry):
                    incoming.setdefault(t, []).append(s2)
                else:
                    if loop is not None and t != entry:
                        self.taken.add((loop[0], n, t))
                    outs.setdefault(t, []).append(s2)
        return outs

    pruned = set()
    taken = set()

    def block(self, b, c, fr, n, st):
        blk = b["blocks"][n]
        for s in blk["s"]:
            self.stmt(st, fr, b, s)
        t = blk["t"]
        if t is None:
            return []
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "ret":
            return [("ret", st)]
        if k in ("unreachable", "resume", "abort"):
            return []
        if k == "sw":
            return self.switch(b, st, fr, t)
        if k == "drop":
            self.drop(st, fr, b, t, n)
            return [(t[2], st)]
        if k == "assert":
            return [(t[4], st)] if t[4] is not None else []
        if k == "call":
            return self.callt(b, c, fr, n, st, t)
        raise Abort("terminator " + k)

    def stmt(self, st, fr, b, s):
        if s[0] == "=":
            v = self.rvalue(st, fr, b, s[2])
            if not s[1][1]:
                st.mem[mk("loc", "l", fr, s[1][0])] = v
            else:
                self.store(st, self.place_ref(st, fr, s[1]), v)
        elif s[0] == "dead":
            st.mem.pop(mk("loc", "l", fr, s[1]), None)
        elif s[0] == "sd":
            p = self.place_ref(st, fr, s[1])
            v = self.load(st, p)
            if v.op == "agg":
                self.store(st, p, mk("agg", v.a[0], s[2], *v.a[2:]))
            else:
                self.store(st, p, mk("setdiscr", v, s[2]))

    def switch(self, b, st, fr, t):
        v = self.operand(st, fr, t[1])
        if v is BOT:
            return [(tt, None) for tt in [x[1] for x in t[2]] + [t[3]]]
        ty = self.ty(t[4])
        v0 = v
        res = []
        rest = TRUE
        arms = list(t[2])
        oth_dead = t[3] is None or (b["blocks"][t[3]]["t"] or ["x"])[0] == "unreachable" and not b["blocks"][t[3]]["s"]
        conds = []
        for i, (val, tgt) in enumerate(arms):
            if ty["k"] == "bool":
                c = as_bool(v) if val else Not(as_bool(v))
            elif i == len(arms) - 1 and oth_dead:
                c = rest
            else:
                c = mapl_bool(v, lambda x: eq(x, const(val, "int")))
            c = And(rest, c)
            conds.append((tgt, c))
            rest = And(rest, Not(c))
        if not oth_dead:
            conds.append((t[3], rest))
        for tgt, c in conds:
            pc = And(st.pc, c)
            if pc is FALSE:
                res.append((tgt, None))
            else:
                s2 = st.clone() if len(conds) > 1 else st
                s2.pc = pc
                res.append((tgt, s2))
        return res

    def drop(self, st, fr, b, t, n):
        m = self.models.get("!drop")
        if m:
            m(self, st, fr, b, t, n)

    # ------------------------------------------------ calls
    def callt(self, b, c, fr, n, st, t):
        callee, args, dest, target, tys, retty = t[1], t[2], t[3], t[4], t[5], t[6]
        vals = [self.operand(st, fr, o) for o in args]
        fr2 = mk("fr", fr, b["id"], n)
        if target is None:
            return []      # panics and exits
        if "op" in callee:
            f = self.operand(st, fr, callee["op"])
            v = self.apply(f, vals, st, fr2, tys, retty)
        else:
            v = self.call(callee, vals, st, fr2, tys, retty)
        if st.pc is FALSE or v is None:
            return []
        if not dest[1]:
            st.mem[mk("loc", "l", fr, dest[0])] = v
        else:
            self.store(st, self.place_ref(st, fr, dest), v)
        return [(target, st)]

    def call(self, callee, vals, st, fr, tys, retty):
        cx = Call(self, callee, vals, st, fr, tys, retty)
        ct = self.contracts.get(cx.key) or self.contracts.get(callee.get("rd") or "")
        if ct is not None:
            r = ct(cx)
            if r is not NotImplemented:
                return r
        if callee.get("i") is not None and callee["i"] in self.bodies:
            b = self.bodies[callee["i"]]
            if cx.last in ("call", "call_mut", "call_once") and "::Fn" in cx.key and len(vals) == 2:
                return self.run(b, *self.calling(b, vals, st, fr))
            return self.run(b, vals, st, fr)
        if cx.last in ("call", "call_mut", "call_once") and "::Fn" in cx.key and len(vals) == 2 and (vals[1].op == "agg" or vals[1] is UNIT):
            v = self.tuple_args(vals[1])
            if v is not None:
                return self.apply(vals[0], v, st, fr, None, retty)
        r = NotImplemented
        m = self.models.get(cx.key)
        if m is not None:
            r = m(cx)
        if r is NotImplemented:
            m = self.models.get("*" + cx.last)
            if m is not None:
                r = m(cx)
        if r is NotImplemented:
            if callee.get("k") == "foreign":
                r = self.models["!foreign"](cx)
            else:
                self.unmodelled[cx.key] = self.unmodelled.get(cx.key, 0) + 1
                r = cx.opaque()
        return r

    def apply(self, f, vals, st, fr, tys=None, retty=None):
        """calls a function value with the argument values"""
        if f.op in ("ref", "vr") or (f.op == "*"):
            g = self.load(st, f) if f.op != "*" else f
            if g.op == "agg" and g.a[0] == "closure":
                b = self.bodies.get(g.a[1])
                if b is None:
                    return mk("app", "closure", *vals)
                return self.run(b, [self.selfarg(b, f, g, st, fr)] + vals, st, fr)
            if g.op in ("ref", "vr", "fn"):
                return self.apply(g, vals, st, fr, tys, retty)
            f = g
        if f.op == "agg" and f.a[0] == "closure":
            b = self.bodies.get(f.a[1])
            if b is None:
                return mk("app", "closure", *vals)
            return self.run(b, [self.selfarg(b, None, f, st, fr)] + vals, st, fr)
        if f.op == "fn":
            t = self.ty(f.a[0])
            c = t.get("callee")
            if c:
                return self.call(c, vals, st, mk("fr", fr, "fn", f.a[0]), tys or [None] * len(vals), retty)
            # a constructor used as a function
            n = t["n"]
            if n.endswith("Option::Some"):
                return some(vals[0])
            if n.endswith("Result::Ok"):
                return ok(vals[0])
            if n.endswith("Result::Err"):
                return err(vals[0])
            return agg(n, 0, *vals)
        if f.op == "ite":
            # either function may be called: not followed
            return mk("app", "choice", *vals)
        return mk("app", "fnvalue", f, *vals)

    def tuple_args(self, v):
        if v is UNIT:
            return []
        return list(v.a[2:]) if v.op == "agg" and v.a[0] == "tuple" else None

    def calling(self, b, vals, st, fr):
        """a closure's or function's body called through the Fn traits: the arguments come as a tuple"""
        n = b["argc"]
        isclo = "{closure" in b["name"]
        k = n - 1 if isclo else n
        t = vals[1]
        args = self.tuple_args(t)
        if args is None or len(args) != k:
            args = [fld(t, i) for i in range(k)]
        if not isclo:
            return args, st, fr
        me = vals[0]
        if me.op == "agg" and me.a[0] == "closure":
            me = self.selfarg(b, None, me, st, fr)
        elif me.op in ("ref", "vr") and self.ty(b["locals"][1])["k"] not in ("ref",):
            me = self.load(st, me)
        elif me.op in ("ref", "vr"):
            g = self.load(st, me)
            if g.op in ("ref", "vr"):
                me = g
        return [me] + args, st, fr

    def selfarg(self, b, p, g, st, fr):
        t = self.ty(b["locals"][1])
        if t["k"] in ("ref",):
            if p is not None:
                return p
            l = mk("loc", "l", fr, "clo")
            st.mem[l] = g
            return ref(l)
        return g

    # ------------------------------------------------ loops
    def cfgloop(self, b, c, fr, head, nodes, st):
        key = mk("lk", fr, b["id"], head)

        def body(s):
            outs = self.region(b, c, fr, head, nodes, {head: [s]}, (head,))
            back = merge(outs.pop(head, []))
            return back, outs
        r = self.peel(key, head, st, body)
        if r is not None:
            return r
        if self.deep:
            s0 = st.clone()
            self.few = key
            r = self.summarize(key, st, body)
            if r is None:
                # few elements, some of which are filtered out: each in turn
                r = self.unroll(key, s0, body)
            if r is not None:
                return r
        return self.summarize(key, st, body)

    few = None

    def unroll(self, key, st, body, limit=14):
        kinds = self.kinds.pop(key, None)
        cur, acc = st.clone(), {}
        for it in range(limit):
            back, outs = body(cur.clone())
            for t, ss in outs.items():
                acc.setdefault(t, []).extend(ss)
            if back is None or back.pc is FALSE:
                return acc
            cur = back
        self.kinds[key] = kinds
        self.few = None
        return None

    deep = False        # whether to keep counting rounds while one exit is still known not to be taken

    def peel(self, key, head, st, body, limit=20):
        if self.kinds.get(key, {}).get("!nopeel"):
            return None
        save = (set(self.pruned), set(self.taken))
        cur = st.clone()
        pc0 = st.pc
        acc = {}
        base = None
        seen_taken = set()
        for it in range(limit):
            self.pruned, self.taken = set(), set()
            back, outs = body(cur.clone())
            pr = set(x for x in self.pruned if x[0] == head) - self.taken
            tk = set(x for x in self.taken if x[0] == head)
            for t, ss in outs.items():
                acc.setdefault(t, []).extend(ss)
            seen_taken |= tk
            if base is None:
                base = pr
                if back is not None and back.pc is not FALSE and not base:
                    break
            if back is None or back.pc is FALSE:
                self.pruned, self.taken = save[0] | pr, save[1] | tk
                return acc
            # an exit that was impossible so far became possible without being certain: not a counted loop
            if (base & tk) and not (self.deep and base - seen_taken):
                break
            cur = back
        self.kinds.setdefault(key, {})["!nopeel"] = True
        self.pruned, self.taken = save
        return None

    def summarize(self, key, st, body, n=None, drive=False):
        """body(state) -> (back state or None, {exit: [states]}).  n: number of rounds when known."""
        kinds = self.kinds.setdefault(key, {})
        k = var("k", key)
        pc0 = st.pc
        n0 = len(self.log)
        for rnd in range(12):
            h = St(dict(st.mem), TRUE)
            hdr = {}
            for l, kd in list(kinds.items()):
                if type(l) is not T:
                    continue
                init = st.mem.get(l)
                if init is None:
                    init = self.default(l) if l.a[0] == "g" else BOT
                hv = self.header_value(key, l, kd, init, k)
                h.mem[l] = hv
                hdr[l] = hv
            self.loops.append(dict(key=key, k=k, hdr=h.mem, skips=[]))
            try:
                back, outs = body(h.clone())
            finally:
                lp = self.loops.pop()
            if lp["skips"]:
                kinds["!skips"] = True
                back = merge(([back] if back is not None else []) + lp["skips"])
            changed = False
            if back is not None and back.pc is not FALSE:
                for l, v in back.mem.items():
                    if l.a[0] == "l" and l not in st.mem:
                        continue
                    init = st.mem.get(l)
                    if init is None:
                        init = self.default(l) if l.a[0] == "g" else BOT
                    kd = kinds.get(l)
                    nk = self.kind_of(key, l, kd, init, hdr.get(l, init), v, k)
                    if nk != kd:
                        kinds[l] = nk
                        changed = True
            if not changed:
                break
        else:
            self.notes.setdefault("unstable loop", set()).add(show(key, 3)[:200])
        if pc0 is not TRUE:
            # rounds are analysed from a state without a path condition
            for i in range(n0, len(self.log)):
                e = self.log[i]
                self.log[i] = (e[0], And(pc0, e[1])) + tuple(e[2:])
        if back is None or back.pc is FALSE:
            # at most one round
            res = {}
            for t, ss in outs.items():
                for s in ss:
                    s.pc = And(pc0, s.pc)
                res[t] = ss
            return res
        return self.close(key, st, k, kinds, hdr, back, outs, pc0, n)

    # kinds: ("mu",) opaque; ("it",) iterator; ("aff", c); ("agg", (kinds...)) per field
    def header_value(self, key, l, kd, init, k):
        return self.hv(key, l, (), kd, init, k)

    def hv(self, key, l, path, kd, init, k):
        if kd[0] == "same":
            return init
        if kd[0] == "mu":
            return mk("v", "mu", key, l, *path)
        if kd[0] == "it":
            d, p = itparts(init)
            return itat(d, iadd(p, k))
        if kd[0] == "aff":
            return iadd(init, mklin(0, {k: kd[1]}))
        if kd[0] == "agg":
            if init.op != "agg" or len(init.a) - 2 != len(kd[1]):
                return mk("v", "mu", key, l, *path)
            return mk("agg", init.a[0], init.a[1], *[self.hv(key, l, path + (i,), x, f, k) for i, (x, f) in enumerate(zip(kd[1], init.a[2:]))])
        if kd[0] == "vr":
            return vr(self.hv(key, l, path + ("vr",), kd[1], init.a[0], k)) if init.op == "vr" else mk("v", "mu", key, l, *path)
        raise Abort("kind")

    def kind_of(self, key, l, kd, init, hv, v, k, path=()):
        """how the value at l changes: init before the loop, hv at the start of round k, v at its end"""
        if kd is None or kd[0] == "same":
            if v is init:
                return kd
            if isit(init):
                return ("it",)
            if init.op == "agg" and len(init.a) > 2 and v.op in ("agg", "ite", "updf") and all(
                    x.op == "agg" and x.a[0] == init.a[0] and x.a[1] == init.a[1] and len(x.a) == len(init.a) for x in leaves(v)):
                # by field
                sub = []
                for i, f in enumerate(init.a[2:]):
                    w = fieldof(v, i)
                    sub.append(("same",) if w is f else self.kind_of(key, l, None, f, f, w, k, path + (i,)) or ("same",))
                return ("agg", tuple(sub))
            return ("mu",)
        if kd[0] == "it":
            d, p = itparts(init)
            want = itat(d, iadd(p, iadd(k, const(1, "int"))))
            return kd if all(x is want for x in leaves(v)) else ("mu",)
        if kd[0] == "aff":
            want = iadd(hv, const(kd[1], "int"))
            return kd if v is want else ("mu", 1)
        if kd[0] == "mu":
            if len(kd) == 1 and v.op == "lin":
                c, d = lin_parts(isub(v, hv))
                if not d and c:
                    return ("aff", c)
            return kd
        if kd[0] == "agg":
            if init.op != "agg":
                return ("mu",)
            sub = []
            for i, (f, x) in enumerate(zip(init.a[2:], kd[1])):
                w = fieldof(v, i)
                if w is None:
                    return ("mu",)
                h2 = hv.a[2 + i] if hv.op == "agg" else f
                nk = self.kind_of(key, l, x, f, h2, w, k, path + (i,))
                sub.append(nk or ("same",))
            if not all(x.op == "agg" and x.a[0] == init.a[0] and x.a[1] == init.a[1] for x in leaves(v)):
                return ("mu",)
            return ("agg", tuple(sub))
        return ("mu",)

    def close(self, key, st, k, kinds, hdr, back, outs, pc0, n):
        """states after the loop"""
        # the literals that end the loop by exhaustion
        exits = []
        for t, ss in outs.items():
            for s in ss:
                exits.append([t, s])
        cnt = n
        exh = set()
        for i, (t, s) in enumerate(exits):
            m = self.exhausted(s.pc, k)
            if m is not None and (cnt is None or m is cnt):
                cnt = m
                exh.add(i)
        brk = FALSE
        for i, (t, s) in enumerate(exits):
            if i not in exh:
                brk = Or(brk, s.pc)
        flag = "o"
        morelit = ilt(k, cnt) if cnt is not None and k not in cnt.fv else TRUE
        N = cnt if cnt is not None else mk("rounds", key)
        muset = {}
        for l, kd in kinds.items():
            if type(l) is T:
                for m in find(hdr[l], lambda x: x.op == "v" and x.a[0] == "mu" and x.a[1] is key):
                    muset[m] = l
        allmu = set(muset)
        info = dict(key=key, k=k, N=N, flag=flag, back=back, hdr=hdr, st=st, mus=muset, more=morelit, kinds=kinds)
        N = self.fixlen(N, info)
        info["N"] = N
        closed_memo = {}

        def closed(m, upto):
            r = closed_memo.get((m, upto))
            if r is None:
                closed_memo[(m, upto)] = mk("pending", m)
                r = closed_memo[(m, upto)] = self.closed_form(info, m, upto)
            return r
        res = {}
        bexits = [(t, s) for i, (t, s) in enumerate(exits) if i not in exh]
        anyb = brk is not FALSE
        brk1 = restrict(brk, morelit) if morelit is not TRUE else brk
        info["brk"] = brk1
        if self.few is key and kinds.get("!skips") and cnt is not None and num(cnt) is not None and num(cnt) <= 12:
            return None
        if self.onloop:
            self.onloop(info, cnt, brk1)
        if anyb:
            hasmu = any(m in brk1.fv for m in allmu)
            g = gen(N, flag)
            if hasmu:
                ms = sorted([m for m in allmu if m in brk1.fv], key=lambda t: t.id)
                kx = bind("firstm", [k] + ms, g, brk1, *[self.mu_init(info, m) for m in ms])
                E = lit(bind("exm", [k] + ms, g, brk1, *[self.mu_init(info, m) for m in ms]))
            else:
                kx = bind("first", [k], g, brk1)
                E = lit(bind("ex", [k], g, brk1))
            if not exh:
                E = TRUE
        else:
            kx, E = None, FALSE
        for i, (t, s) in enumerate(exits):
            if i in exh:
                if E is TRUE:
                    continue
                m = {k: N}
                for mu in allmu:
                    m[mu] = closed(mu, N)
                self.subst_state(s, m)
                rel = restrict(s.pc, TRUE)
                s.pc = And(pc0, And(Not(E), self.drop_facts(s.pc, Not(morelit))))
            else:
                m = {k: kx}
                for mu in allmu:
                    m[mu] = closed(mu, kx)
                which = restrict(restrict(s.pc, brk), morelit)
                for l, v in list(s.mem.items()):
                    if st.mem.get(l) is not v:
                        s.mem[l] = given(v, s.pc)
                self.subst_state(s, m)
                s.pc = And(pc0, And(E, subst(which, m)))
            if s.pc is not FALSE:
                res.setdefault(t, []).append(s)
        return res

    def drop_facts(self, pc, fact):
        return TRUE if True else pc

    def mu_init(self, info, m):
        l = info["mus"][m]
        v = info["st"].mem.get(l)
        if v is None:
            v = self.default(l) if l.a[0] == "g" else BOT
        for e in m.a[3:]:
            v = v.a[0] if e == "vr" else fieldof(v, e)
            if v is None:
                return BOT
        return v

    def mu_back(self, info, m):
        l = info["mus"][m]
        v = info["back"].mem.get(l)
        if v is None:
            return m
        for e in m.a[3:]:
            v = v.a[0] if e == "vr" else fieldof(v, e)
            if v is None:
                return mk("lost", m)
        return v

    def closed_form(self, info, m, upto):
        k, key = info["k"], info["key"]
        init = self.mu_init(info, m)
        b = self.mu_back(info, m)
        more = info["more"]
        if more is not TRUE:
            b = restrict(b, more)
        if b is m:
            return init
        g = gen(upto, info["flag"])
        mus = [x for x in info["mus"] if x in b.fv]
        # pushes
        if b.op == "seq" and b.a[0] is m and not any(x in s.fv for s in b.a[1:] for x in mus):
            return seq(init, rep(k, g, b.a[1:]))
        # every element replaced in turn
        if b.op == "updi" and b.a[0] is m and b.a[1] is k and mus == [m]:
            e = self.elementwise(b.a[2], m, k, init)
            if e is not None and (upto is length(init)):
                return seq(EMPTY, rep(k, g, [one(e)]))
        # scattered writes
        w = writes_of(b, m)
        if w is not None and not any(x in s.fv for s in w for x in mus):
            return wrs(init, rep(k, g, w))
        # sums
        for o, name in (("f+", "fsum"), ("lin", "isum")):
            e = addends(b, m, o)
            if e is not None and not any(x in e.fv for x in mus):
                s = bind(name, [k], g, TRUE, e)
                return fop("f+", init, s) if o == "f+" else iadd(init, s)
        # the last value assigned
        if mus == [m] or not mus:
            if not mus and k not in b.fv:
                # assigned the same value in every round
                pass
            return self.chosen(bind("fold", [k, m], g, init, b), info, [m])
        # several variables that depend on each other
        rel = [m]
        for x in rel:
            for y in info["mus"]:
                if y in self.mu_back(info, y if False else x).fv and y not in rel:
                    rel.append(y)
        rel = [m] + sorted(rel[1:], key=lambda t: t.id)
        return self.chosen(bind("rec", [k] + rel, g, *([self.mu_init(info, x) for x in rel] + [restrict(self.mu_back(info, x), more) for x in rel])), info, rel)

    choose = None
    onloop = None

    def chosen(self, r, info, rel):
        """an analysis by cases may fix what a recurrence comes to"""
        return self.choose(r, info, rel) if self.choose else r

    def elementwise(self, x, m, k, init):
        """x with the element k of m replaced by that of init, if x depends on nothing else of m"""
        e = mk("idx", m, k)
        h = var("elt", m.id, k.id)
        memo = {}

        def go(t):
            if t is e:
                return h
            if m not in t.fv:
                return t
            r = memo.get(t)
            if r is None:
                na = tuple([go(y) if type(y) is T else y for y in t.a])
                r = memo[t] = t if t.op == "v" else rebuild(t.op, na)
            return r
        y = go(x)
        return None if m in y.fv else subst(y, {h: index(init, k)})

    def fixlen(self, n, info):
        """a bound that mentions the length of an array whose length the loop keeps"""
        for m in list(n.fv):
            if m in info["mus"]:
                b = self.mu_back(info, m)
                if writes_of(b, m) is not None:
                    n = sublen(n, m, length(self.mu_init(info, m)))
        return n

    def exhausted(self, pc, k):
        """if pc says that the counter k reached some bound: the bound"""
        p = pc
        found = None
        while p.op == "ite":
            at = p.a[0]
            if p.a[2] is FALSE:
                pos, nxt = True, p.a[1]
            elif p.a[1] is FALSE:
                pos, nxt = False, p.a[2]
            else:
                break
            if at.op == "op" and at.a[0] == "<" and k in at.fv:
                x, y = at.a[1], at.a[2]
                if not pos and k in x.fv and k not in y.fv:      # not (a + k < b)
                    c, d = lin_parts(x)
                    if d.get(k) == 1:
                        del d[k]
                        found = isub(y, mklin(c, d))
                elif pos and k in y.fv and k not in x.fv:        # x < a + k: k > x - a
                    c, d = lin_parts(y)
                    if d.get(k) == 1:
                        del d[k]
                        found = iadd(isub(x, mklin(c, d)), const(1, "int"))
            p = nxt
        return found

    def subst_state(self, s, m):
        memo = {}
        for l, v in list(s.mem.items()):
            s.mem[l] = subst(v, m, memo)
            if l.fv & frozenset(m):
                nl = subst(l, m, memo)
                if nl is not l:
                    s.mem[nl] = s.mem.pop(l)

    # ------------------------------------------------ internal iteration
    def each(self, st, fr, d, f, name="each"):
        """runs f(state, element) for every element of iterator d; f returns a condition under which the iteration
        stops (or None). Returns (state after, condition 'stopped')."""
        n = self.models["!itlen"](self, st, d)
        cn = num(n) if n is not None else None
        key = mk("lk", fr, name, 0)
        if cn is not None and cn <= 20:
            cur = st.clone()
            stopped = []
            for i in range(int(cn)):
                frm = mk("fr", fr, name, i)
                g, e = self.models["!itelem"](self, cur, frm, d, const(i, "int"))
                if g is not TRUE:
                    skip = cur.clone()
                    skip.pc = And(cur.pc, Not(g))
                    cur.pc = And(cur.pc, g)
                else:
                    skip = None
                if cur.pc is not FALSE:
                    stop = f(cur, e, const(i, "int"), frm)
                    if stop is not None and stop is not FALSE:
                        s2 = cur.clone()
                        s2.pc = And(cur.pc, stop)
                        if s2.pc is not FALSE:
                            stopped.append(s2)
                        cur.pc = And(cur.pc, Not(stop))
                cur = merge([x for x in (cur, skip) if x is not None and x.pc is not FALSE])
                if cur is None:
                    break
            return cur, merge(stopped)
        k = var("k", key)
        frm = mk("fr", fr, name, "k")

        def body(s):
            g, e = self.models["!itelem"](self, s, frm, d, k)
            more = ilt(k, n) if n is not None else TRUE if self.models["!endless"](d) else lit(mk("more", d, k))
            outs = {}
            end = s.clone()
            end.pc = And(s.pc, Not(more))
            outs["done"] = [end]
            s.pc = And(s.pc, more)
            skip = None
            if g is not TRUE:
                skip = s.clone()
                skip.pc = And(s.pc, Not(g))
                s.pc = And(s.pc, g)
            stop = f(s, e, k, frm)
            if stop is not None and stop is not FALSE:
                s2 = s.clone()
                s2.pc = And(s.pc, stop)
                outs["stop"] = [s2]
                s.pc = And(s.pc, Not(stop))
            back = merge([x for x in (s, skip) if x is not None and x.pc is not FALSE])
            return back, outs
        res = self.summarize(key, st, body, n)
        return merge(res.get("done", [])), merge(res.get("stop", []))


def sublen(n, m, v):
    e = mk("len", m)
    memo = {}

    def go(t):
        if t is e:
            return v
        if m not in t.fv:
            return t
        r = memo.get(t)
        if r is None:
            r = memo[t] = t if t.op == "v" else rebuild(t.op, tuple([go(y) if type(y) is T else y for y in t.a]))
        return r
    return go(n)


def samepath(p):
    """pointers into one location that differ in indices only"""
    ls = leaves(p)
    q = ls[0]
    for r in ls:
        if r.op != "ref" or r.a[0] is not q.a[0] or len(r.a) != len(q.a):
            return False
        for e, f in zip(r.a[1:], q.a[1:]):
            if e is not f and (e.op != f.op or e.op not in ("pi", "prow", "pcol", "psl") or len(e.a) != len(f.a)):
                return False
    return True


def given(v, c):
    """v where c is known to hold"""
    if v.op == "ite":
        return restrict(v, c)
    if v.op == "agg" and len(v.a) > 2:
        fs = [given(x, c) for x in v.a[2:]]
        if any(x is not y for x, y in zip(fs, v.a[2:])):
            return mk("agg", v.a[0], v.a[1], *fs)
    return v


def mapl_bool(v, f):
    return mapl(v, f) if v.op != "ite" else as_bool(mapl(v, f))


def tag(n):
    s = n.split("::")[-1]
    if n in ("std::option::Option", "core::option::Option"):
        return "Option"
    if n in ("std::result::Result", "core::result::Result"):
        return "Result"
    return n


def fieldof(v, i):
    """field i of a value all of whose choices are the same kind of aggregate"""
    if v.op == "agg":
        return v.a[2 + i] if 2 + i < len(v.a) else None
    if v.op == "ite":
        try:
            return mapl(v, lambda x: fieldof(x, i) if x.op == "agg" else _raise())
        except KeyError:
            return None
    return None


def _raise():
    raise KeyError


def writes_of(b, m):
    """the writes that turn array m into b, as segments, or None"""
    if b is m:
        return []
    if b.op == "updi":
        r = writes_of(b.a[0], m)
        return None if r is None else r + [mk("w", TRUE, b.a[1], b.a[2])]
    if b.op == "mset":
        r = writes_of(b.a[0], m)
        return None if r is None else r + [mk("wm", TRUE, b.a[1], b.a[2])]
    if b.op == "wrs":
        r = writes_of(b.a[0], m)
        return None if r is None else r + list(b.a[1:])
    if b.op == "ite":
        p, q = writes_of(b.a[1], m), writes_of(b.a[2], m)
        if p is None or q is None:
            return None
        l = mk("ite", b.a[0], TRUE, FALSE)
        return [gate(s, l) for s in p] + [gate(s, Not(l)) for s in q]
    return None


REBUILD["w"] = lambda c, i, x: mk("w", as_bool(c), i, x)
REBUILD["wm"] = lambda c, i, x: mk("wm", as_bool(c), i, x)


def addends(b, m, o):
    """e with b = m + e, or None"""
    if b is m:
        return const(0.0, "f64") if o == "f+" else const(0, "int")
    if b.op == "ite":
        p, q = addends(b.a[1], m, o), addends(b.a[2], m, o)
        return None if p is None or q is None else ite(mk("ite", b.a[0], TRUE, FALSE), p, q)
    if o == "f+" and b.op == "op" and b.a[0] in ("f+", "f-"):
        x, y = b.a[1], b.a[2]
        if m in x.fv and m not in y.fv:
            e = addends(x, m, o)
            return None if e is None else fop(b.a[0], e, y) if not isc(e, 0.0) else (y if b.a[0] == "f+" else fneg(y))
        if b.a[0] == "f+" and m in y.fv and m not in x.fv:
            e = addends(y, m, o)
            return None if e is None else fop("f+", e, x)
        return None
    if o == "lin" and b.op == "lin":
        c, d = lin_parts(b)
        if d.get(m) == 1:
            del d[m]
            e = mklin(c, d)
            return e
    return None


def slice_(v, a, b):
    if v.op == "ite":
        return mapl(v, lambda x: slice_(x, a, b))
    if is_arr(v):
        x, y = num(a), num(b)
        if x is not None and y is not None:
            es = v.a[2:][int(x):int(y)]
            return arr2(len(es), *es)
    if isc(a, 0) and b is length(v):
        return v
    if v.op == "sl":
        return mk("sl", v.a[0], iadd(v.a[1], a), iadd(v.a[1], b))
    return mk("sl", v, a, b)


REBUILD["sl"] = slice_


def col(v, c):
    n = num(c)
    if is_arr(v) and n is not None:
        r = v.a[1]
        return arr2(r, *v.a[2 + int(n) * r:2 + int(n) * r + r])
    return mk("col", v, c)


# ---------------------------------------------------------------- iterator values: it(descriptor, position)
def itat(d, pos):
    return mk("it", d, pos)


def isit(v):
    return v.op == "it"


def itparts(v):
    return v.a[0], v.a[1]


class Cfg:
    """control flow without unwinding, its reverse post order and its natural loops"""

    def __init__(self, b):
        self.entry = 0
        succ = {}
        for n, blk in enumerate(b["blocks"]):
            t = blk["t"]
            s = []
            if t:
                k = t[0]
                if k == "goto":
                    s = [t[1]]
                elif k == "sw":
                    s = [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
                elif k == "drop":
                    s = [t[2]]
                elif k == "assert":
                    s = [t[4]] if t[4] is not None else []
                elif k == "call":
                    s = [t[4]] if t[4] is not None else []
            succ[n] = [x for x in s if x is not None]
        self.succ = succ
        seen, post = set(), []
        st = [(0, iter(succ[0]))]
        seen.add(0)
        while st:
            n, it = st[-1]
            for m in it:
                if m not in seen:
                    seen.add(m)
                    st.append((m, iter(succ[m])))
                    break
            else:
                post.append(n)
                st.pop()
        self.rpo = post[::-1]
        self.blocks = self.rpo
        idx = {n: i for i, n in enumerate(self.rpo)}
        preds = {n: [] for n in self.rpo}
        for n in self.rpo:
            for m in succ[n]:
                preds[m].append(n)
        # dominators
        dom = {0: 0}
        ch = True
        while ch:
            ch = False
            for n in self.rpo[1:]:
                ps = [p for p in preds[n] if p in dom]
                if not ps:
                    continue
                d = ps[0]
                for p in ps[1:]:
                    a, c = d, p
                    while a != c:
                        while idx[a] > idx[c]:
                            a = dom[a]
                        while idx[c] > idx[a]:
                            c = dom[c]
                    d = a
                if dom.get(n) != d:
                    dom[n] = d
                    ch = True
        self.preds = preds

        def dominates(a, n):
            while True:
                if n == a:
                    return True
                if n == 0:
                    return False
                n = dom[n]
        self.loopat = {}
        for n in self.rpo:
            for m in succ[n]:
                if idx[m] <= idx[n] and dominates(m, n):
                    body = self.loopat.setdefault(m, {m})
                    w = [n]
                    while w:
                        x = w.pop()
                        if x not in body:
                            body.add(x)
                            w += preds[x]
        # topological order in which every loop is contiguous: reverse post order is one for reducible graphs only if
        # exits come later; order by collapsing loops
        self.rpo = self.linear(idx)

    def linear(self, idx):
        """an order in which a block comes after all its predecessors, with loops collapsed"""
        heads = sorted(self.loopat, key=lambda h: len(self.loopat[h]))

        def order(nodes, entry, skip):
            # representatives: outermost loop inside nodes (other than skip)
            repn = {}
            inner = [h for h in self.loopat if h in nodes and h != skip and self.loopat[h] <= nodes]
            inner.sort(key=lambda h: -len(self.loopat[h]))
            for h in inner:
                for x in self.loopat[h]:
                    if x not in repn:
                        repn[x] = h
            R = lambda x: repn.get(x, x)
            edges = {}
            for x in nodes:
                for y in self.succ.get(x, []):
                    if y in nodes and R(x) != R(y) and not (y == entry):
                        edges.setdefault(R(x), set()).add(R(y))
            seen, post = set(), []

            def dfs(x):
                seen.add(x)
                for y in sorted(edges.get(x, ()), key=lambda t: -idx[t]):
                    if y not in seen:
                        dfs(y)
                post.append(x)
            dfs(R(entry))
            res = []
            for x in post[::-1]:
                if x in self.loopat and x in repn and repn[x] == x:
                    res += order(self.loopat[x], x, x)
                else:
                    res.append(x)
            return res
        return order(set(self.blocks), self.entry, None)


import re
_kc = {}


def normkey(p):
    """a callee path without generic arguments: 'std::vec::Vec::push', 'nalgebra::Matrix::dot'"""
    r = _kc.get(p)
    if r is None:
        s = p
        # <impl X> parts
        s = re.sub(r"::<impl .*>::", "::", s) if "<impl " in s else s
        out, dep = [], 0
        i = 0
        while i < len(s):
            ch = s[i]
            if ch == "<":
                dep += 1
            elif ch == ">" and (i == 0 or s[i - 1] != "-"):
                dep -= 1
            elif dep == 0:
                out.append(ch)
            i += 1
        s = "".join(out)
        s = re.sub(r"::(::)+", "::", s).strip(":")
        r = _kc[p] = s
    return r


class Call:
    def __init__(self, I, callee, args, st, fr, tys, retty):
        self.I, self.callee, self.args, self.st, self.fr, self.tys, self.retty = I, callee, args, st, fr, tys, retty
        self.key = normkey(callee.get("p") or "")
        self.rkey = callee.get("r") or ""
        self.last = self.key.split("::")[-1]
        self.gargs = callee.get("a") or []

    def tystr(self, i):
        return self.I.tystr(self.tys[i]) if self.tys and i < len(self.tys) and self.tys[i] is not None else ""

    def load(self, p):
        return self.I.load(self.st, p)

    def val(self, i):
        """argument i with references followed by type"""
        v = self.args[i]
        t = self.I.ty(self.tys[i]) if self.tys and self.tys[i] is not None else None
        n = 0
        while t is not None and t["k"] in ("ref", "ptr") and n < 4:
            v = self.load(v)
            t = self.I.ty(t["e"])
            n += 1
        if t is None:
            while v.op in ("ref", "vr"):
                v = self.load(v)
        return v

    def pure(self, v, depth=0):
        """a value in which references to the caller's memory are replaced by what is there"""
        I, st = self.I, self.st

        def go(x, d):
            if d > 6:
                return x
            if x.op == "ref":
                return vr(go(I.load(st, x), d + 1))
            if x.op == "ba":
                return go(I.load(st, x), d + 1)
            if x.op == "agg":
                return mk("agg", x.a[0], x.a[1], *[go(y, d + 1) for y in x.a[2:]])
            if x.op == "ite":
                return mapl(x, lambda y: go(y, d + 1))
            if x.op in ("vr", "it", "map", "filter", "zip", "enum", "chain", "fmap", "flat", "src", "srcv", "srcm") and find(x, lambda t: t.op == "ref"):
                return mk(x.op, *[go(y, d + 1) if type(y) is T else y for y in x.a])
            return x
        return go(v, 0)

    def opaque(self, havoc=True):
        vs = [self.pure(a) for a in self.args]
        name = self.rkey if self.callee.get("k") == "foreign" else self.key
        if havoc and self.tys:
            for i, (a, t) in enumerate(zip(self.args, self.tys)):
                tt = self.I.ty(t) if t is not None else None
                if tt and tt["k"] == "ref" and tt["m"] and a.op in ("ref", "ite"):
                    self.I.store(self.st, a, mk("mut", name, i, *vs))
        return mk("app", name, *vs)

    def bool(self, v):
        return as_bool(v)


# ---------------------------------------------------------------- adjustments shared with the models
length_ = length


def length(v):
    if v.op == "agg" and v.a[0] in ("HashMap", "BTree"):
        return length_(v.a[2])
    if v.op == "rawslice":
        return v.a[1]
    if v.op == "*" and v.a[0].op == "rawslice":
        return v.a[0].a[1]
    if v.op in ("sorted",):
        return length_(v.a[-3]) if v.op == "sorted" else length_(v)
    return length_(v)


REBUILD["len"] = length
