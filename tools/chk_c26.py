"""C26: pixels and palette colours cross the web boundary unchanged."""
from common import Check
import itertools
import math
import web
from web import *


def poly_of(v):
    return aspoly(v) if v is not None else None


def its_of(p):
    return {a for m in p for a in m if a[:2] == ("t", "it")}


def known(v, extra=()):
    """a number made of loop counters, the request's arguments, image sizes and buffers only"""
    p = aspoly(v)
    if p is None:
        return False
    return all(a[:2] == ("t", "it") or frozen_path(a) or a in extra for m in p for a in m)


def plain(v):
    """a product of sizes: nothing whose value could equal another one by how it was made"""
    p = aspoly(v)
    return p is not None and all(a[:2] == ("t", "get") and a[2][:2] == ("t", "arg") and isinstance(a[3], tuple) or a[:2] == ("t", "lib") and
                                 a[2].startswith("get_decomposed_image_") for m in p for a in m)


def at_sizes(v, env):
    """the value of an expression over sizes when they are given, or None"""
    if v in env:
        return env[v]
    if v[0] == "num":
        r = 0
        for m, k in v[1]:
            for a in m:
                x = at_sizes(a, env)
                if x is None:
                    return None
                k *= x
            r += k
        return r
    if v[0] != "t":
        return None
    xs = [at_sizes(a, env) if isinstance(a, tuple) else None for a in v[2:]]
    if v[1] in ("%", "/", "<<", ">>", "&", "-", "+", "*") and len(xs) == 2 and None not in xs:
        a, b = xs
        try:
            if v[1] == "%":
                return math.fmod(a, b)
            if v[1] == "/":
                return a / b
            return {"<<": lambda: int(a) << int(b), ">>": lambda: int(a) >> int(b), "&": lambda: int(a) & int(b), "-": lambda: a - b, "+": lambda: a + b,
                    "*": lambda: a * b}[v[1]]()
        except (ArithmeticError, ValueError):
            return None
    if v[1] == "pure" and len(v) == 4 and v[2] in ("Math.floor", "Math.ceil", "Math.trunc", "Math.round"):
        x = at_sizes(v[3], env)
        return None if x is None else {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "round": lambda y: math.floor(y + 0.5)}[v[2][5:]](x)
    return None


def sizes_of(v, out):
    if v[:2] == ("t", "get") or v[:2] == ("t", "lib"):
        out.add(v)
    elif v[0] == "num":
        for m, k in v[1]:
            for a in m:
                sizes_of(a, out)
    elif v[0] == "t":
        for a in v[2:]:
            if isinstance(a, tuple):
                sizes_of(a, out)
    return out


def differs(tot, n):
    """sizes at which a loop runs another number of times than there are elements: both are functions of the same sizes"""
    a = sizes_of(n, set())
    if not a or len(a) > 3 or not plain(n) or sizes_of(tot, set()) - a:
        return None
    a = sorted(a, key=repr)
    for vs in itertools.product((1, 2, 3, 5, 8), repeat=len(a)):
        env = dict(zip(a, vs))
        x, y = at_sizes(tot, env), at_sizes(n, env)
        if x is None or y is None:
            return None
        # a counter that steps by one runs up to the next whole number
        if math.ceil(x) != y:
            return env
    return None


def split(o, d, k=None):
    """o = d*p + k with 0 <= k < d: (p, k), or None"""
    p = aspoly(o)
    if p is None:
        return None
    k0 = p.get((), 0)
    if not isinstance(k0, int) or any(not isinstance(c, int) for c in p.values()):
        return None
    k = k0 % d
    q = dict(p)
    q[()] = k0 - k
    if any(c % d for c in q.values()):
        return None
    return norm1({m: c // d for m, c in q.items() if c}), k


def walk_writes(log, buf_of, chain=()):
    """the writes to a buffer: (offset, value, chain of loops)"""
    for e in log:
        if e[0] == "w":
            o = buf_of(e)
            if o is not None:
                yield o, e[3], chain
        elif e[0] == "loop":
            for l in e[3]:
                yield from walk_writes(l, buf_of, chain + ((e[1], e[2], e[4], len(e[3])),))


def covers(log, buf_of, d, k, n, chain=()):
    """are all n elements of component k written? True, False (definitely not), None"""
    best = False
    for e in log:
        if e[0] == "w":
            o = buf_of(e)
            if o is None:
                continue
            s = split(o, d)
            if s is None:
                best = None
                continue
            if s[1] != k:
                continue
            p = s[0]
            if not chain:
                if const(p) is not None and const(n) == 1 and const(p) == 0:
                    return True
                best = None if best is False and const(p) is None else best
                continue
            if any(c[2] != "all" for c in chain):
                best = None
                continue
            tot = num(1)
            want = num(0)
            for it, cnt, kind, _ in reversed(chain):
                want = add(want, mul(it, tot)) if want is not None and mul(it, tot) is not None else None
                tot = mul(tot, cnt)
                if tot is None:
                    break
            if tot is None or n is None:
                best = None
                continue
            diff = add(n, tot, -1)
            if p == want and diff is not None and const(diff) == 0:
                return True
            if p == want and diff is not None and (const(diff) or 0) > 0 and known(tot):
                if best is False:
                    best = ("short", diff)
                continue
            off = add(p, want, -1) if want is not None else None
            if off is not None and (const(off) or 0) > 0 and diff is not None and const(add(diff, off, -1)) == 0:
                if best is False:
                    best = ("late", off)
                continue
            if p == want and differs(tot, n):
                if best is False:
                    best = ("other", tot)
                continue
            if p == want and diff is not None and const(diff) is None and plain(tot) and plain(n) and not its_of(aspoly(tot)):
                if best is False:
                    best = ("other", tot)
                continue
            best = None
        elif e[0] == "loop":
            rs = [covers(l, buf_of, d, k, n, chain + ((e[1], e[2], e[4], len(e[3])),)) for l in e[3]]
            if rs and e[4] == "all" and all(r is True for r in rs):
                return True
            if any(r is True for r in rs) and any(r is False for r in rs) and e[4] == "all" and not any(
                    r is None for r in rs):
                best = ("some", None) if best is False else best
            else:
                for r in rs:
                    if isinstance(r, tuple) and best is False:
                        best = r
                    elif r is None or r is True:
                        best = None
    return best


def upto(log, ev):
    out = []
    for e in log:
        if e is ev:
            return out
        out.append(e)
    return out


def after(log, ev):
    out, on = [], False
    for e in log:
        if on:
            out.append(e)
        if e is ev:
            on = True
    return out


def contents(c, st, log, buf_of, where, what, d, n, value, comps, extra=()):
    """the buffer's element p, component k is value(p, k); judge(value, p, k) -> True/False/None"""
    ws = list(walk_writes(log, buf_of))
    bad = c.unk if st.unsure else c.bad
    wrong = set()
    if not ws:
        c.unk("contents", "%s: %s" % (where, what), "no write is recognised")
        return
    for o, v, chain in ws:
        s = split(o, d)
        c.count("writes")
        if s is None:
            p = aspoly(o)
            its = its_of(p) if p is not None else set()
            if p is not None and known(o, extra) and len(its) == 1 and all(len(m) == 1 for m in p if m) and p.get((next(iter(its)),), 0) not in (1, 0):
                bad("place", "%s: %s" % (where, what), "a component is written at %s; pixels are %d bytes apart" % (show(o), d))
            else:
                c.unk("place", "%s: %s" % (where, what), show(o))
            continue
        r = value(v, s[0], s[1])
        if r is True:
            wrong.add(("ok", s[1]))
        elif r is None:
            c.unk("value", "%s: %s" % (where, what), "component %d of element %s is %s" % (s[1], show(s[0]), show(v)))
        else:
            bad("value", "%s: component %d of %s" % (where, s[1], what), "component %d of element %s is given %s (%s)" % (s[1], show(s[0]), show(v), r))
    for k in range(d):
        r = covers(log, buf_of, d, k, n)
        if r is True:
            c.ok("complete", "%s: component %d of %s" % (where, k, what), "every element, from %s" % comps)
        elif r is False and all(split(o, d) is not None for o, v, ch in ws):
            bad("complete", "%s: component %d of %s" % (where, k, what), "it is never written")
        elif isinstance(r, tuple) and r[0] == "short":
            bad("complete", "%s: component %d of %s" % (where, k, what), "the last %s elements are not written" % show(r[1]))
        elif isinstance(r, tuple) and r[0] == "late":
            bad("complete", "%s: component %d of %s" % (where, k, what), "the first %s elements are not written" % show(r[1]))
        elif isinstance(r, tuple) and r[0] == "other":
            bad("complete", "%s: component %d of %s" % (where, k, what), "%s elements are written, there are %s" % (show(r[1]), show(n)))
        elif isinstance(r, tuple):
            bad("complete", "%s: component %d of %s" % (where, k, what), "it is not written for every element")
        else:
            c.unk("complete", "%s: component %d of %s" % (where, k, what), "")


def from_array(base_ok, stride, comp):
    """value judge: element index of a request's array"""
    def f(v, p, k):
        if v[:2] == ("t", "get") and isinstance(v[3], tuple) and base_ok(v[2]):
            want = add(mul(num(stride), p), num(comp(k)))
            d = add(v[3], want, -1) if aspoly(v[3]) is not None else None
            if d is None:
                return None
            if const(d) == 0:
                return True
            return "it should be element %s" % show(want) if known(d) else None
        return "a constant" if const(v) is not None else None
    return f


def worker(c, s):
    w = s.w
    for m in sorted(w.strings):
        try:
            paths = w.paths(m)
        except Abort as e:
            c.unk("request analysed", m, str(e))
            continue
        for comp, v, st in paths:
            if st.ts.get("threw"):
                continue
            where = "request " + m
            sizes = {}
            for e in st.log:
                if e[0] == "lib" and e[1] == "create_image_buffer" and e[2]:
                    sizes[e[3]] = e[2][0]
            for e in st.log:
                if e[0] != "lib" or e[1] not in ROLE:
                    continue
                role = dict(zip(ROLE[e[1]], e[2]))
                if "pixels" in role:
                    inbuf(c, st, e, role["pixels"], where, 3, mul(role["width"], role["height"]), "pixels of " + e[1],
                          from_array(lambda b: frozen_path(b), 4, lambda k: k), "the canvas pixels", sizes)
                if "palette" in role:
                    n = role.get("count")
                    pal = [x for o, x, ch in walk_writes(upto(st.log, e), at(role["palette"], sizes))]
                    if n is None:
                        src = {y[2][2] for y in pal if y[:2] == ("t", "get") and y[2][:2] == ("t", "get")}
                        n = get(src.pop(), "length") if len(src) == 1 else None

                    def colour(v, p, k):
                        if v[:2] == ("t", "get") and v[2][:2] == ("t", "get") and isinstance(v[3], tuple) and isinstance(v[2][3], tuple) and frozen_path(v[2][2]):
                            d1, d2 = add(v[2][3], p, -1), add(v[3], num(k), -1)
                            if d1 is None or d2 is None:
                                return None
                            if const(d1) == 0 and const(d2) == 0:
                                return True
                            return "it should be component %d of colour %s" % (k, show(p)) if known(d1) and known(d2) else None
                        return "a constant" if const(v) is not None else None
                    inbuf(c, st, e, role["palette"], where, 3, n, "palette of " + e[1], colour, "the colours of the request", sizes)
                    if role.get("count") is not None:
                        if role["count"][:2] == ("t", "get") and role["count"][3] == "length":
                            c.ok("count", where, "the palette has as many colours as the request")
                        else:
                            d = [x for x in pal if x[:2] == ("t", "get") and x[2][:2] == ("t", "get")]
                            d = add(role["count"], get(d[0][2][2], "length"), -1) if d else None
                            if d is not None and const(d):
                                (c.unk if st.unsure else c.bad)("count", where, "it is %s, not the number of colours" % show(role["count"]))
                            else:
                                c.unk("count", where, show(role["count"]))
                if "output" in role and any(r[0] == "sendResponse" for r in st.ts.get("replies", ())):
                    output(c, st, e, role["output"], where, 3 if e[1] == "reconstruct_image" else 1)
                if "outsize" in role:
                    palette_out(c, st, e, role, where)


def at(ptr, sizes):
    """offsets of writes into the buffer that starts at ptr"""
    def f(e):
        if e[1] != "mem":
            return None
        p = aspoly(e[2])
        if p is None or p.get((ptr,), 0) != 1:
            return None
        if len(e) > 4 and VIEWS.get(e[4], 1) != 1:
            return None
        q = dict(p)
        del q[(ptr,)]
        return norm1(q)
    return f


def inbuf(c, st, e, ptr, where, d, n, what, value, comps, sizes):
    if ptr not in sizes:
        own = [b for b in sizes if (aspoly(ptr) or {}).get((b,)) == 1]
        off = const(add(ptr, own[0], -1)) if len(own) == 1 else None
        if off:
            (c.unk if st.unsure else c.bad)("start", "%s: %s" % (where, what), "%s is not the start of the buffer" % show(ptr))
        else:
            c.unk("start", "%s: %s" % (where, what), show(ptr))
        return
    log = upto(st.log, e)
    f = at(ptr, sizes)
    # bytes after the elements belong to something else
    size = mul(num(d), n) if n is not None else None

    def inside(x):
        o = f(x)
        if o is None or size is None:
            return o
        g = add(o, size, -1)
        p = aspoly(g) if g is not None else None
        if p is not None and not its_of(p) and (const(g) or 0) >= 0 and const(g) is not None:
            return None
        return o
    contents(c, st, log, inside, where, what, d, n, value, comps)


def output(c, st, e, ptr, where, stride):
    """the image the worker answers with, from the library's output buffer"""
    imgs = [x for x in st.log if x[0] == "imagedata"]
    news = [x for x in st.log if x[0] == "new" and "OffscreenCanvas" in show_any(x[1])]
    puts = [x for x in st.log if x[0] == "call" and x[1][:2] == ("t", "get") and x[1][3] == "putImageData"]
    bad = c.unk if st.unsure else c.bad
    dec = e[2][0]
    W, H = t("lib", "get_decomposed_image_width", dec), t("lib", "get_decomposed_image_height", dec)

    def size(kind, a, b):
        if (a, b) == (W, H):
            c.ok("size", "%s: %s" % (where, kind), "width and height of the decomposed image")
        elif a == H or b == W or const(a) is not None or const(b) is not None:
            bad("size", "%s: %s" % (where, kind), "it is %s by %s" % (show(a), show(b)))
        else:
            c.unk("size", "%s: %s" % (where, kind), "it is %s by %s" % (show(a), show(b)))
    if len(imgs) != 1:
        c.unk("image", where, "%d images are made" % len(imgs))
        return
    a = imgs[0][1]
    if len(a) > 2:
        size("image", a[1], a[2])
    elif len(a) == 2:
        size("image", a[1], H)
    for x in news:
        if len(x[2]) > 1:
            size("canvas", x[2][0], x[2][1])
    for x in puts:
        if len(x[2]) > 2 and all(const(y) is not None for y in x[2][1:3]):
            if const(x[2][1]) == 0 and const(x[2][2]) == 0:
                c.ok("image position", where, "")
            else:
                bad("image position", where, "the image is drawn at %s, %s" % (show(x[2][1]), show(x[2][2])))
    if a[0][0] != "ref":
        c.unk("image", where, show(a[0]))
        return
    o = st.heap.get(a[0][1])
    ident = o.x.get("base", a[0][1]) if o is not None and isinstance(o.x, dict) else a[0][1]
    ver = e[4]

    def js(x):
        return x[2] if x[1] == ("js", ident) else None

    def later(n):
        """nothing has been computed since the output was: only other buffers were released"""
        if not isinstance(n, int) or not isinstance(ver, int) or n < ver:
            return False
        return all(x[1] in ("free_image_buffer", "get_decomposed_image_width", "get_decomposed_image_height") and ptr not in x[2]
                   for x in after(st.log, e) if x[0] == "lib" and x[4] <= n)

    def pixel(v, p, k):
        if k == 3:
            if const(v) == 255:
                return True
            return "pixels are opaque" if const(v) is not None or v[:2] == ("t", "mem") else None
        if v[:2] == ("t", "mem"):
            want = add(ptr, add(mul(num(stride), p), num(k if stride == 3 else 0)))
            d = add(v[2], want, -1)
            if d is None or not later(v[3]):
                return None
            if const(d) == 0:
                return True
            return "it should be the byte at %s" % show(want) if known(d) else None
        return "a constant" if const(v) is not None else None
    contents(c, st, after(st.log, e), js, where, "image from %s" % e[1], 4, mul(W, H), pixel, "the library's output",
             extra=())


def show_any(v):
    try:
        return show(v)
    except Exception:
        return repr(v)


def palette_out(c, st, e, role, where):
    bad = c.unk if st.unsure else c.bad
    r = e[3]
    for rep in st.ts.get("replies", ()):
        if rep[0] != "sendResponse" or len(rep[1]) < 2:
            continue
        comps = []

        def find(v):
            if isinstance(v, tuple):
                if v[:1] == ("comp",) and mentions(v, lambda a: a == r):
                    comps.append(v)
                    return
                for x in v:
                    find(x)
        find(rep[1][1])
        if len(comps) != 1:
            c.unk("palette", where, "the colours in the answer are not recognised")
            continue
        _, it, cnt, each = comps[0]
        want = role["outsize"]
        if cnt[:2] == ("t", "mem"):
            if cnt[2] == want:
                c.ok("palette size", where, "as many as the library stored")
            else:
                bad("palette size", where, "the number of colours is read from %s, the library stores it at %s" % (show(cnt[2]), show(want)))
        elif aspoly(cnt) is not None and mentions(cnt, lambda a: a[:2] == ("t", "mem") and a[2:3] == (want,)) and const(add(cnt, t("mem", want, e[4]), -1)):
            bad("palette size", where, "%s colours are read" % show(cnt))
        elif const(cnt) is not None:
            bad("palette size", where, "always %s colours" % show(cnt))
        else:
            c.unk("palette size", where, show(cnt))
        els = each[1] if each[0] == "tup" else None
        if els is None:
            c.unk("palette", where, show(each))
            continue
        if len(els) != 3:
            bad("palette", where, "a colour has %d components" % len(els))
            continue
        for k, x in enumerate(els):
            if x[:2] != ("t", "mem"):
                (bad if const(x) is not None else c.unk)("palette", "%s: component %d" % (where, k), show(x))
                continue
            d = add(x[2], add(r, add(mul(num(3), it), num(k))), -1)
            if d is not None and const(d) == 0:
                c.ok("palette", "%s: component %d" % (where, k), show(x[2]))
            elif d is not None and known(d):
                bad("palette", "%s: component %d" % (where, k), "it is read from %s" % show(x[2]))
            else:
                c.unk("palette", "%s: component %d" % (where, k), show(x[2]))


# ---- the page ------------------------------------------------------------------------------------------------------------------------------------------


class Page26(Page):
    opaque = False

    def ext_call(self, f, this, args, st, node):
        # other ways to set a field
        if f[:2] == ("t", "get") and f[3] in ("setAttribute", "assign", "setProperty", "setRangeText") or f[:2] == ("t", "get") and isinstance(f[3], tuple):
            self.opaque = True
        return super().ext_call(f, this, args, st, node)

    def on_store(self, base, key, val, st, node):
        super().on_store(base, key, val, st, node)
        if key in ("value", "src"):
            st.ev("store", base, key, self.freeze(val, st), tuple(sorted(st.facts.items(), key=repr)))


def chars(v):
    """the characters of a known string that v consists of: (string, indices)"""
    if v[:2] == ("t", "get") and isinstance(v[3], tuple) and const(v[3]) is not None:
        return v[2], [const(v[3])]
    if v[:2] in (("t", "+"), ("t", "cat")):
        ps = [chars(x) for x in v[2:]]
        if all(ps) and len({p[0] for p in ps}) == 1:
            return ps[0][0], [i for p in ps for i in p[1]]
        return None
    if v[:2] == ("t", "pure") and v[2] in ("slice", "substring", "substr", "charAt", "at") and len(v) >= 5:
        a = [const(x) for x in v[4:]]
        if any(x is None or x < 0 for x in a):
            return None
        base, idx = v[3], None
        if v[2] in ("charAt", "at"):
            idx = [a[0]]
        elif len(a) == 1:
            idx = list(range(a[0], 7))
        elif v[2] == "substr":
            idx = list(range(a[0], min(7, a[0] + a[1])))
        else:
            idx = list(range(a[0], min(7, a[1])))
        inner = chars(base)
        if inner and len(inner[1]) > 1:
            return inner[0], [inner[1][i] for i in idx if i < len(inner[1])]
        return base, idx
    return None


def colour_value(v):
    """a colour component read from a text field: (the field's value, component, radix ok), or None"""
    if v[:3] == ("t", "pure", "parseInt") and len(v) >= 4:
        return chars(v[3]), const(v[4]) if len(v) > 4 else None
    if v[:3] in (("t", "pure", "Number"),) and len(v) == 4:
        return chars(v[3]), 10
    return None


def flat(log, chain=()):
    for e in log:
        if e[0] == "loop":
            for l in e[3]:
                yield from flat(l, chain + (e,))
        else:
            yield e, chain


def child(v):
    """which palette entry an element belongs to: (index, the entry's part)"""
    part = None
    while v[:2] == ("t", "get"):
        if isinstance(v[3], str) and v[3].startswith("palette-"):
            part = v[3]
        if isinstance(v[3], tuple) and v[3][0] == "str" and v[3][1].startswith("palette-"):
            part = v[3][1]
        if isinstance(v[3], tuple) and v[3][0] != "str" and aspoly(v[3]) is not None:
            return v[3], part
        v = v[2]
    return None


def page(c, s):
    done = {}

    def put(kind, key, how, detail=""):
        old = done.get((kind, key))
        if old is None or {"bad": 2, "unk": 1, "ok": 0}[how] > {"bad": 2, "unk": 1, "ok": 0}[old[0]]:
            done[(kind, key)] = (how, detail)
    shows = {"palette-src-color": [], "palette-dst-color": []}
    blind, full = [], False
    for where, runs in s.entries:
        for comp, v, st in runs:
            for e, chain in flat(st.log):
                if e[0] == "request" and e[1] in ("createImageWeights", "computePalette") and e[2] is not None:
                    asked(e, put, "unk" if st.unsure else "bad")
            if st.ts.get("failed"):
                continue
            bad = "unk" if st.unsure else "bad"
            requests = {}
            names = [e[1] for e, chain in flat(st.log) if e[0] == "request"]
            if "computePalette" in names and "reconstructImage" in names:
                full = True
            if st.unsure:
                blind.append("unsure")
            for e, chain in flat(st.log):
                if e[0] == "store" and e[2] == "value":
                    w = child(e[1])
                    if w is not None and w[1] in shows:
                        shows[w[1]].append(e)
                    elif w is None and not mentions(e[1], lambda a: a[:2] == ("t", "event")) or w is not None and w[1] is None:
                        blind.append(show(e[1]))
            for e, chain in flat(st.log):
                if e[0] == "request":
                    requests[e[3]] = (e, chain)
                    if e[1] in ("createDecomposedImage", "reconstructImage") and e[2] is not None:
                        fields(e, put, bad)
            for e, chain in flat(st.log):
                if e[0] != "store":
                    continue
                if e[2] == "src":
                    picture(e, chain, requests, put, bad)
                else:
                    shown(e, chain, st, put, bad)
    for part, es in sorted(shows.items()):
        if any(mentions(e[3], lambda a: a[:3] == ("t", "reply", "computePalette")) for e in es):
            put("shown", "field %s: set" % part, "ok", "")
        elif full and not blind and not s.p.opaque and all(e[3][0] == "str" for e in es):
            put("shown", "field %s: set" % part, "bad", "no step gives it a computed colour")
        else:
            put("shown", "field %s: set" % part, "unk", "; ".join(blind[:2]))
    for (kind, key), (how, detail) in sorted(done.items()):
        {"ok": c.ok, "bad": c.bad, "unk": c.unk}[how](kind, key, detail)


def asked(e, put, bad):
    """the sizes in a request are those of the pixels it carries"""
    key = "request %s" % e[1]
    a, w, h = (index_value(e[2], num(i)) if e[2][0] == "tup" else None for i in range(3))
    if a is None or w is None or h is None:
        put("request sizes", key, "unk", "")
        return
    if w[:2] == ("t", "get") and h[:2] == ("t", "get") and w[2] == h[2] and w[3] in ("height", "naturalHeight") and h[3] in ("width", "naturalWidth"):
        put("request sizes", key, bad, "the width is given as %s and the height as %s" % (show(w), show(h)))
        return
    while a[:2] in (("t", "awaited"),):
        a = a[2]
    g = a[2] if a[:2] == ("t", "get") and a[3] == "data" else None
    if g is None or not (g[:2] in (("t", "call"), ("t", "pure"))):
        put("request sizes", key, "unk" if a[:2] != ("t", "reply") and not (a[:2] == ("t", "get") and a[2][:2] == ("t", "reply")) else "ok", show(a)[:160])
        return
    args = [x for x in g[2:] if isinstance(x, tuple) and x and isinstance(x[0], tuple)]
    args = args[0] if args else ()
    if len(args) != 4:
        put("request sizes", key, "unk", show(a)[:160])
    elif (args[2], args[3]) == (w, h):
        put("request sizes", key, "ok", "")
    elif (args[2], args[3]) == (h, w) and w != h:
        put("request sizes", key, bad, "%s by %s pixels are read, the request says %s by %s" % (show(args[2]), show(args[3]), show(w), show(h)))
    else:
        put("request sizes", key, "unk", "%s by %s pixels are read, the request says %s by %s" % (show(args[2]), show(args[3]), show(w), show(h)))


FIELD = {"createDecomposedImage": "palette-src-color", "reconstructImage": "palette-dst-color"}


def fields(e, put, bad):
    """the palette of a request holds the colours of the page's fields, in order"""
    key = "request %s" % e[1]
    pal = index_value(e[2], num(1)) if e[2][0] == "tup" else None
    if pal is None or pal[0] != "comp":
        put("fields", key, "unk", "the palette is not recognised")
        return
    _, it, cnt, each = pal
    if each[0] != "tup":
        put("fields", key, "unk", show(each)[:100])
        return
    if len(each[1]) != 3:
        put("fields", key, bad, "a colour of the palette has %d components" % len(each[1]))
        return
    for k, x in enumerate(each[1]):
        r = colour_value(x)
        kk = "%s: component %d" % (key, k)
        if r is None or r[0] is None:
            put("fields", kk, bad if const(x) is not None else "unk", show(x)[:160])
            continue
        (src, idx), radix = r
        if radix != 16:
            put("fields", kk, bad, "it is read with radix %s" % radix)
        elif idx != [1 + 2 * k, 2 + 2 * k]:
            put("fields", kk, bad, "it is read from characters %s of the field" % idx)
        else:
            put("fields", kk, "ok", "")
        w = child(src)
        if w is None:
            put("fields", key + ": entry", "unk", show(src)[:160])
        elif w[0] != it:
            put("fields", key + ": entry", bad if known(w[0]) else "unk", "colour %s is read from entry %s" % (show(it), show(w[0])))
        elif w[1] is None:
            put("fields", key + ": entry", "unk", show(src)[:160])
        elif w[1] == FIELD[e[1]] or w[1] == FIELD[e[1]] + "-txt":
            put("fields", key + ": entry", "ok", w[1])
        elif w[1].replace("-txt", "") in FIELD.values():
            put("fields", key + ": entry", bad, "the palette is read from %s" % w[1])
        else:
            put("fields", key + ": entry", "unk", w[1])


def picture(e, chain, requests, put, bad):
    """an image shown on the page is the one that was asked for that place"""
    _, base, key, val, facts = e
    reps = []

    def find(v):
        if isinstance(v, tuple):
            if v[:2] == ("t", "reply"):
                reps.append(v)
            else:
                for x in v:
                    find(x)
    find(val)
    reps = [r for r in reps if r[2] in ("grayscaleImageChannel", "reconstructImage")]
    if len(reps) != 1:
        return
    r = reps[0]
    w = child(base)
    if r[2] == "reconstructImage":
        if w is not None:
            put("picture", "recoloured image", bad, "it is shown in palette entry %s" % show(w[0]))
        elif mentions(base, lambda a: a == S("src-img") or a == "src-img") and not mentions(base, lambda a: a in (S("dst-img"), "dst-img")):
            put("picture", "recoloured image", bad, "it is shown in %s" % show(base))
        else:
            put("picture", "recoloured image", "ok", show(base))
        return
    rq = requests.get(r[3])
    n = index_value(rq[0][2], num(1)) if rq and rq[0][2] is not None and rq[0][2][0] == "tup" else None
    if w is None:
        put("picture", "channel image", bad if "dst-img" in show(base) else "unk", "it is shown in %s" % show(base))
    elif n is None:
        put("picture", "channel image", "unk", "the channel asked for is not known")
    else:
        d = add(w[0], n, -1)
        if d is not None and const(d) == 0:
            put("picture", "channel image", "ok", "channel %s in entry %s" % (show(n), show(w[0])))
        else:
            put("picture", "channel image", bad if d is not None and known(d) else "unk", "channel %s is shown in entry %s" % (show(n), show(w[0])))


def parts(v):
    return list(v[2:]) if v[:2] == ("t", "cat") else [x for y in v[2:] for x in parts(y)] if v[:2] == ("t", "+") else [v]


def hexed(v):
    """(number, padded) for a number written in base 16"""
    if v[:3] == ("t", "pure", "padStart") and len(v) >= 5:
        r = hexed(v[3])
        if r and const(v[4]) == 2 and len(v) > 5 and v[5] == S("0"):
            return r[0], True
        return None
    if v[:3] == ("t", "pure", "toString") and len(v) >= 4:
        if len(v) > 4 and const(v[4]) == 16:
            return v[3], False
        return v[3], "radix"
    if v[:2] == ("t", "cat") and len(v) == 3:
        return hexed(v[2])
    return None


def by_length(d):
    """varies with a loop counter, besides lengths"""
    p = aspoly(d)
    return p is not None and bool(its_of(p)) and all(a[:2] == ("t", "it") or a[:2] == ("t", "get") and a[3] == "length" for m in p for a in m)


def shown(e, chain, st, put, bad):
    """the fields of a palette entry show the colour the worker computed for it"""
    _, base, key, val, facts = e
    w = child(base)
    if not mentions(val, lambda a: a[:3] == ("t", "reply", "computePalette")):
        return
    if w is None:
        put("shown", "palette entries", "unk", show(base))
        return
    ps = [x for p in parts(val) for x in ([S(ch) for ch in p[1]] if p[0] == "str" else [p])]
    name = "field %s" % (w[1] or "")
    if not ps or ps[0] != S("#"):
        put("shown", name, bad if all(p[0] == "str" or hexed(p) for p in ps) else "unk", "its text does not start with #: %s" % show(val)[:200])
        return
    i, k = 1, 0
    while i < len(ps):
        zero = ps[i] == S("0")
        if zero:
            i += 1
        h = hexed(ps[i]) if i < len(ps) else None
        if h is None:
            put("shown", name, "unk", show(val)[:200])
            return
        if h[1] == "radix":
            put("shown", name, bad, "a component is not written in base 16")
            return
        n = h[0]
        if k < 3:
            if n[:2] == ("t", "get") and isinstance(n[3], tuple) and const(n[3]) is not None:
                if const(n[3]) != k:
                    put("shown", name + ": component %d" % k, bad, "it shows component %s of the colour" % const(n[3]))
                else:
                    put("shown", name + ": component %d" % k, "ok", "")
                q = n[2]
                if q[:2] == ("t", "get") and isinstance(q[3], tuple) and aspoly(q[3]) is not None:
                    d = add(q[3], w[0], -1)
                    if d is not None and const(d) == 0:
                        put("shown", name + ": entry", "ok", "")
                    elif d is not None and (known(d) or by_length(d)):
                        put("shown", name + ": entry", bad, "entry %s shows colour %s" % (show(w[0]), show(q[3])))
                    else:
                        put("shown", name + ": entry", "unk", "entry %s shows colour %s" % (show(w[0]), show(q[3])))
                else:
                    put("shown", name + ": entry", "unk", show(q)[:100])
            else:
                put("shown", name + ": component %d" % k, "unk", show(n)[:100])
            if h[1] is False:
                vals = possible(facts, ps[i], n)
                if vals is None:
                    put("shown", name + ": digits", "unk", "component %d" % k)
                elif any((x < 16) != zero for x in vals):
                    x = min(x for x in vals if (x < 16) != zero)
                    put("shown", name + ": digits", bad, "component %d is written with%s a leading zero when it is %d" % (k, "" if zero else "out", x))
                elif vals:
                    put("shown", name + ": digits", "ok", "")
            elif zero:
                put("shown", name + ": digits", bad, "component %d is padded twice" % k)
        k += 1
        i += 1
    if k != 3:
        put("shown", name, bad, "it shows %d components" % k)


def possible(facts, s, n):
    """the values of n, a byte, that the path's facts about it and about its digits s allow; None if a fact is not understood"""
    vals = set(range(256))
    for fact, holds in facts:
        if not mentions(fact, lambda a: a in (s, n)):
            continue
        if fact[:2] == ("t", "pos"):
            d, test = aspoly(fact[2]), lambda x: x > 0
        elif fact[:2] == ("t", "eq"):
            d, test = add(fact[2], fact[3], -1), lambda x: x == 0
            d = aspoly(d) if d is not None else None
        else:
            return None
        if d is None:
            return None

        def at(x):
            out = 0
            for m, c in d.items():
                v = c
                for a in m:
                    if a == n:
                        v *= x
                    elif a[:2] == ("t", "get") and a[3] == "length" and a[2] in (s, t("cat", s)):
                        v *= 1 if x < 16 else 2
                    else:
                        return None
                out += v
            return out
        rs = {x: at(x) for x in vals}
        if None in rs.values():
            return None
        vals = {x for x in vals if test(rs[x]) == holds}
    return vals


def run():
    c = Check("C26", "value flow over the syntax trees of worker and page: every write to a wasm buffer and to an image is compared, as a polynomial in "
              "the loop counters, with the element and component it must hold, and the loops' trip counts with the number of elements; the page's "
              "fields are parsed and written component by component")
    c.assumptions += ["a canvas gives and takes four bytes a pixel, red first, row by row", "colour fields hold # and six hexadecimal digits"]
    try:
        s = System(page=Page26)
    except Abort as e:
        c.unk("web code analysed", "worker and page", str(e))
        return c.finish()
    worker(c, s)
    page(c, s)
    c.count("requests", len(s.p.requests))
    return c.finish()
