"""C20: the web page and worker agree, and every request gets one reply."""
from common import Check
import web
from web import *


def zero(st, r):
    """is a library result known to be zero on this path: True, False or None"""
    return st.facts.get(t("eq", *sorted((num(0), r), key=repr)))


def writes(log, ctx=()):
    for e in log:
        if e[0] == "w":
            yield e, ctx
        elif e[0] == "loop":
            for l in e[3]:
                yield from writes(l, ctx + ((e[1], e[2]),))


IDS = {"min": "min-palette-cnt", "max": "max-palette-cnt", "error": "palette-err-limit"}


def run():
    c = Check("C20", "value-flow analysis of the page's and the worker's syntax trees and of the library's exported functions (from the compiler's IR): every "
              "request the page can send on some path is answered by the worker exactly once on each path that does not throw, with a response iff "
              "the library's result is known not to be the failure value; library functions exist with the arity used; and each library parameter, "
              "expressed through the request's arguments and the page's values, is the page's value of that meaning")
    res = {}

    def wrep(kind, what, where, detail):
        pass

    def prep(kind, what, where, detail):
        res.setdefault((kind, what, where), detail)
    try:
        s = System(wrep, prep)
    except Abort as e:
        c.unk("page and worker analysed", "image-palette-recoloring-web", str(e))
        return c.finish()
    lib = web.exports()
    sent = {}
    for n, (m, a, tr, where) in s.p.requests.items():
        sent.setdefault(m, []).append((n, a, tr, where))
    if None in sent:
        for _, a, tr, where in sent.pop(None)[:3]:
            c.unk("request named", where, "a request whose method is not a constant")
    if not sent:
        c.unk("requests found", s.p.file, "the page sends none")
    for (kind, what, where), detail in sorted(res.items(), key=repr):
        (c.bad if kind == "bad" else c.unk)(what, where, detail)
    # the library's functions
    cells = stored(s)
    for m in sorted(set(sent) | {None}, key=str):
        name = m or "no such method"
        where = "request " + name
        try:
            paths = s.w.paths(name)
        except Abort as e:
            c.unk("request analysed", where, str(e))
            continue
        used = handled(paths)
        if m and not used:
            c.bad("request handled", where, "the page sends it, the worker answers no such request")
            continue
        if m:
            c.ok("request handled", where)
        replies(c, s, where, paths, bool(m))
        for comp, v, st in paths:
            for e in libs_of(st.log):
                if e[1] not in lib:
                    c.bad("library function exists", where + ": " + e[1], "the worker calls it, the library does not export it")
                elif lib[e[1]]["n"] != len(e[2]):
                    c.bad("library arity", where + ": " + e[1], "called with %d arguments, takes %d" % (len(e[2]), lib[e[1]]["n"]))
                else:
                    c.count("library calls")
        if m:
            arguments(c, s, where, paths, sent[m], cells)
    c.count("methods", len(sent))
    c.count("page paths", sum(len(r) for _, r in s.entries))
    c.count("library functions", len(lib))
    return c.finish()


def replies(c, s, where, paths, known):
    ok = True
    for comp, v, st in paths:
        c.count("worker paths")
        rs = st.ts.get("replies", ())
        fail = c.unk if st.unsure else c.bad
        thrown = comp == "throw"
        if len(rs) > 1 or not thrown and len(rs) != 1:
            ok = False
            fail("one reply on every path", where, "a path sends %d replies (%s)" % (len(rs), ", ".join(r[0] for r in rs) or "none"))
            continue
        if thrown:
            if st.ts.get("threw") is None and known and v != t("TypeError"):
                c.count("throwing paths")
            continue
        kind, args = rs[0]
        if not args or args[0] != REQID:
            ok = False
            fail("reply to the request", where, "the reply names %s, not the request" % (show(args[0]) if args else "nothing"))
        fails = [(n, r) for n, r in st.ts.get("result", ()) if n in FALLIBLE]
        if not known and kind != "sendError":
            ok = False
            fail("unknown requests are refused", where, "a request with an unknown method is answered with " + kind)
        for n, r in fails:
            z = zero(st, r)
            if kind == "sendResponse" and z is not False:
                ok = False
                fail("error when the library fails", where + ": " + n, "a response is sent %s" % ("although it failed" if z else "without a look at its result"))
            if kind == "sendError" and z is not True:
                others = [k for k in st.facts if not mentions(k, lambda x: x == r)]
                ok = False
                (fail if z is False and len(fails) == 1 or not others else c.unk)(
                    "no error when the library succeeds", where + ": " + n, "an error is sent %s" % ("although it succeeded" if z is False else "without a look at its result"))
        if kind == "sendError" and known and not fails and not mentions_args(st.facts):
            ok = False
            fail("no error when the library succeeds", where, "an error is sent although nothing failed")
    if ok:
        c.ok("one reply on every path", where, "%d paths" % len(paths))


def mentions_args(facts):
    return any(mentions(k, lambda x: x == ARGS) or True for k in facts)


def stored(s):
    """for each variable of the page that functions assign: the values it is given, resolved"""
    out = {}
    for w, runs in s.entries:
        for comp, v, st in runs:
            for k in st.ts:
                if isinstance(k, tuple) and k[0] == "cell":
                    x = st.heap[k[1]].p.get(k[2])
                    out.setdefault(name_of(s, k), set()).add(s.resolve(x))
    return out


def name_of(s, k):
    if k[1] == s.p.top:
        return k[2]
    return k[2]


def pointer(s, v, cells, depth=0):
    """the library functions whose result a value is"""
    v = s.resolve(v)
    if v[:2] == ("t", "libres"):
        return {v[2]}
    if v[:2] == ("t", "init") and depth < 3:
        r = set()
        for x in cells.get(v[2].split(".")[-1], ()):
            if x in (UNDEF, NULL) or x == v or const(x) is not None:
                continue
            q = pointer(s, x, cells, depth + 1)
            if q is None:
                return None
            r |= q
        return r
    if v in (UNDEF, NULL):
        return set()
    return None


def arguments(c, s, where, paths, sent, cells):
    seen = set()
    reported, doubts = set(), set()
    uniq = {}
    for q in sent:
        uniq.setdefault(repr(s.resolve(q[1]) if q[1] is not None else None), q)
    sent = list(uniq.values())

    def unk(kind, wh, d):
        if (kind, wh) not in doubts:
            doubts.add((kind, wh))
            c.unk(kind, wh, d)

    def bad(kind, wh, d):
        if (kind, wh) not in reported:
            reported.add((kind, wh))
            c.bad(kind, wh, d)
    for comp, v, st in paths:
        wr = list(writes(st.log))
        for e in libs_of(st.log):
            if e[1] not in ROLE:
                continue
            for role, a in zip(ROLE[e[1]], e[2]):
                if (e[1], role, a) in seen:
                    continue
                seen.add((e[1], role, a))
                for n, pa, tr, pw in sent:
                    if pa is None:
                        unk("arguments", where, "not known")
                        continue

                    def put(x):
                        return s.resolve(rewrite(x, lambda b: pa if b == ARGS else None))
                    wh = "%s: %s of %s" % (where, role, e[1])
                    x = put(a)
                    if role in ("weights", "decomposed"):
                        maker = {"weights": "create_image_weights", "decomposed": "create_decomposed_image"}[role]
                        q = pointer(s, x, cells)
                        if q is None and (image_size(x) is not None or const(x) is not None or x[0] in ("str", "tup", "comp", "bool") or address(x)):
                            bad("argument", wh, "it is %s" % show(x)[:200])
                        elif q is None:
                            unk("argument", wh, show(x))
                        elif q - {maker}:
                            bad("argument", wh, "it is given the result of %s (%s)" % (", ".join(sorted(q - {maker})), show(x)))
                        else:
                            c.count("arguments")
                    elif role in ("min", "max", "error"):
                        ids = {i for i in IDS.values() if has(x, i)}
                        if ids and ids != {IDS[role]}:
                            bad("argument", wh, "it comes from the field %s" % ", ".join(sorted(ids)))
                        elif not ids:
                            if const(x) is not None or x in (UNDEF, NULL):
                                bad("argument", wh, "it is %s, not what the user entered" % show(x))
                            else:
                                unk("argument", wh, show(x))
                        else:
                            c.count("arguments")
                    elif role in ("width", "height"):
                        k = pixels_of(wr)
                        px = put(k) if k is not None else None
                        dims = image_size(px) if px is not None else None
                        if px is not None and (px[:2] == ("t", "libres") or px in (UNDEF, NULL) or const(px) is not None or pointer(s, px, cells)):
                            bad("argument", "%s: pixels of %s" % (where, e[1]), "they are read from %s, which is no pixel array" % show(px))
                        elif dims is None:
                            unk("argument", wh, show(x))
                        elif x == dims[0 if role == "width" else 1]:
                            c.count("arguments")
                        elif x in dims or x in (UNDEF, NULL) or const(x) is not None or mentions(x, lambda b: b == dims[0] or b == dims[1]) or field(x):
                            bad("argument", wh, "it is %s; the pixels are of an image %s by %s" % (show(x), show(dims[0]), show(dims[1])))
                        else:
                            unk("argument", wh, "%s; the pixels are of an image %s by %s" % (show(x), show(dims[0]), show(dims[1])))
                    elif role in ("pixels", "output", "outsize"):
                        if address(a):
                            c.count("arguments")
                        elif const(x) is not None or x in (UNDEF, NULL) or pointer(s, x, cells) or x[0] in ("tup", "comp", "str") or image_size(x) or from_request(a):
                            bad("argument", wh, "it is %s, not the address of a buffer" % show(x)[:200])
                        else:
                            unk("argument", wh, show(x)[:200])
                    elif role == "palette" and not address(a):
                        if const(x) is not None or x in (UNDEF, NULL) or pointer(s, x, cells) or x[0] in ("tup", "comp", "str") or image_size(x) or from_request(a):
                            bad("argument", wh, "it is %s, not the address of a buffer" % show(x)[:200])
                        else:
                            unk("argument", wh, show(x)[:200])
                    elif role == "palette":
                        want, other = ("palette-src-color", "palette-dst-color") if e[1] == "create_decomposed_image" else ("palette-dst-color", "palette-src-color")
                        buf = put(("tup", tuple(w[0][3] for w in wr if w[0][1] == "mem" and mentions(w[0][2], lambda b: b == a))))
                        h = [i for i in (want, other) if has(buf, i)]
                        if h == [want]:
                            c.count("arguments")
                        elif h:
                            bad("argument", wh, "its colours come from %s" % ", ".join(h))
                        else:
                            unk("argument", wh, show(buf)[:200])
                    elif role == "count":
                        arr = [w[0][3] for w in wr if w[0][1] == "mem"]
                        ks = {q for w in arr for q in lists_in(w)}
                        if len(ks) == 1:
                            k = ks.pop()
                            if a == get(k, "length"):
                                c.count("arguments")
                            else:
                                d = add(a, get(k, "length"), -1)
                                if d is not None and not mentions(d, lambda b: b[:2] == ("t", "pure")):
                                    bad("argument", wh, "it is %s; the colours are in %s" % (show(a), show(k)))
                                else:
                                    unk("argument", wh, show(a))
                        else:
                            unk("argument", wh, show(a))
                    elif role == "channel":
                        if x in (UNDEF, NULL) or pointer(s, x, cells) or address(x):
                            bad("argument", wh, "it is %s" % show(x))
                        elif x[:2] == ("t", "it") or const(x) is not None:
                            c.count("arguments")
                        else:
                            unk("argument", wh, show(x))
    if not reported:
        c.ok("arguments", where, "%d library parameters" % len(seen))


def address(a):
    """is it an address inside a buffer the worker made"""
    p = aspoly(a) if a[0] in ("num", "t") else None
    return p is not None and any(len(m) == 1 and m[0][:3] == ("t", "lib", "create_image_buffer") and k == 1 for m, k in p.items())


def from_request(a):
    """is it, as it stands, an argument of the request"""
    return a[:2] == ("t", "get") and a[2] == ARGS


def field(x):
    return any(has(x, i) for i in IDS.values())


def has(v, name):
    """does a value depend on the property or element of this name"""
    return v == name or isinstance(v, tuple) and any(has(x, name) for x in v)


def pixels_of(wr):
    """the request's argument whose elements are written into the memory"""
    ks = set()
    for (e, ctx) in wr:
        if e[1] == "mem":
            v = e[3]
            if v[:2] == ("t", "get") and v[2][:2] == ("t", "get") and v[2][2] == ARGS:
                ks.add(v[2])
    return ks.pop() if len(ks) == 1 else None


def lists_in(v):
    """the arguments a written colour component comes from"""
    if v[:2] == ("t", "get") and v[2][:2] == ("t", "get") and v[2][2][:2] == ("t", "get") and v[2][2][2] == ARGS:
        yield v[2][2]


def image_size(px):
    """the size of the image whose pixels these are"""
    if px[:2] == ("t", "awaited"):
        px = px[2]
    if px[:2] == ("t", "get") and px[3] == "data":
        q = px[2]
        if q[:2] == ("t", "call") and q[2][:2] == ("t", "get") and q[2][3] == "getImageData" and len(q[3]) == 4:
            return q[3][2], q[3][3]
    return None
