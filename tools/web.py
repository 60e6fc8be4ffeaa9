"""The web worker and the web page, analysed with jsi: what each request makes the worker do, and what each user event makes the page do."""
import os, re
import jsi, vbuild
from jsi import *
from vbuild import REPO

JS = os.path.join(REPO, "image-palette-recoloring-web/src/js")
WORKER, PAGE = os.path.join(JS, "webworker.js"), os.path.join(JS, "index.js")
COMPUTE = {"create_image_weights", "compute_palette", "create_decomposed_image", "reconstruct_image", "grayscale_image_channel"}   # may throw, and grow memory
GROW = COMPUTE | {"create_image_buffer"}
FALLIBLE = COMPUTE - {"create_image_weights"}
VIEWS = {"Uint8ClampedArray": 1, "Uint8Array": 1, "Int8Array": 1, "Uint16Array": 2, "Uint32Array": 4, "Int32Array": 4, "Float32Array": 4, "Float64Array": 8,
         "Int16Array": 2}
NOSUCH = "no such method"
ARGS, REQID = t("arg", "args"), t("arg", "id")


def exports():
    """the C library's functions in the wasm build: name -> (number of parameters, names, types, result type)"""
    d = vbuild.mir(wasm=True)
    out = {}
    for b in d["bodies"]:
        if b["name"].startswith("vharness::c_lib::") and b.get("sym") == b["name"].split("::")[-1]:
            names = {}
            for n, pl in b["dbg"]:
                if not pl[1] and 1 <= pl[0] <= b["argc"]:
                    names.setdefault(pl[0], n)
            tys = [d["types"][x]["s"] for x in b["locals"][:b["argc"] + 1]]
            out[b["sym"]] = dict(n=b["argc"], names=[names.get(i, "") for i in range(1, b["argc"] + 1)], tys=tys[1:], ret=tys[0])
    return out


def is_inst(v):
    return mentions(v, lambda x: x == ("t", "g", "WebAssembly"))


class Worker(Interp):
    """The worker, for one request at a time."""

    def __init__(self, report=None, lib=None):
        super().__init__(WORKER)
        self.report = report or (lambda *a: None)
        self.lib = lib or {}
        self.seen_libs = {}
        self.inst = None
        self.where = "module"

    def bad(self, st, kind, what):
        self.report("unk" if st.unsure else "bad", kind, self.where, what + (" (%s)" % st.unsure if st.unsure else ""))

    # -- what the module reaches outside

    def prop(self, b, key, st, node):
        if key == "buffer" and b[:2] == ("t", "get") and b[3] == "memory" and b[2][:2] == ("t", "get") and b[2][3] == "exports" and is_inst(b):
            return [("n", t("membuf", st.ts.get("epoch", 0)), st)]
        if b == self.inst and (key == NOSUCH or key == S(NOSUCH)):
            return [("n", UNDEF, st)]
        return super().prop(b, key, st, node)

    def libname(self, f):
        if f[:2] == ("t", "get") and isinstance(f[3], str) and f[2][:2] == ("t", "get") and f[2][3] == "exports" and is_inst(f[2]):
            return f[3]
        return None

    def ext_call(self, f, this, args, st, node):
        name = self.libname(f)
        if name is not None:
            return self.libcall(name, args, st, node)
        if f[:3] in (("t", "inherited", self.inst), ("t", "method", self.inst)) and f[3] not in ("sendResponse", "sendError"):
            st.doubt("the worker calls %s of its base class" % f[3])
        if f[:3] == ("t", "inherited", self.inst) and f[3] in ("sendResponse", "sendError"):
            st.ts["replies"] = st.ts.get("replies", ()) + ((f[3], tuple(self.freeze(a, st) for a in args)),)
            st.ev("reply", f[3])
            return [("n", UNDEF, st)]
        return None

    def libcall(self, name, args, st, node):
        fz = tuple(self.freeze(a, st) for a in args)
        self.seen_libs.setdefault(name, set()).add((len(args), self.where))
        for a in args:
            o = self.obj(st, a)
            if o is not None and o.k == "view":
                self.bad(st, "typed array passed as a pointer", "%s is given a typed array, not an address" % name)
        # what is freed must be live
        if name == "free_image_buffer" and len(args) == 2:
            self.free(st, fz[1], fz[0], "create_image_buffer", name)
        elif name == "free_computed_palette" and len(args) == 2:
            self.free(st, fz[0], fz[1], "compute_palette", name)
        elif name in ("free_image_buffer", "free_computed_palette"):
            pass
        else:
            for a in fz:
                self.touch(st, a, "%s is given" % name)
        if name == "create_image_buffer":
            r = t("lib", name, self.fresh())
            st.ts[("buf", r)] = ("live", fz[0] if fz else UNDEF, "create_image_buffer")
        elif name.startswith("get_"):
            r = t("lib", name, *fz)
        elif name.startswith("free_"):
            r = UNDEF
        else:
            r = t("lib", name, self.fresh())
        out = []
        if name in COMPUTE:
            z = st.fork()
            z.ts["threw"] = name
            z.ts["epoch"] = z.ts.get("epoch", 0) + 1
            out.append(("throw", t("trap", name), z))
        if name in GROW:
            st.ts["epoch"] = st.ts.get("epoch", 0) + 1
        if not name.startswith("get_"):
            st.ts["ver"] = st.ts.get("ver", 0) + 1
        st.ev("lib", name, fz, r, st.ts.get("ver", 0))
        if name == "compute_palette":
            # null, or a palette with the number of colours stored through the last argument
            z = st.fork()
            z.facts[t("eq", *sorted((num(0), r), key=repr))] = True
            z.ts["result"] = z.ts.get("result", ()) + ((name, r),)
            out.append(("n", r, z))
            st.facts[t("eq", *sorted((num(0), r), key=repr))] = False
            st.ts[("buf", r)] = ("live", t("mem", fz[-1] if fz else UNDEF, st.ts["ver"]), "compute_palette")
        if name in COMPUTE:
            st.ts["result"] = st.ts.get("result", ()) + ((name, r),)
        out.append(("n", r, st))
        return out

    # -- buffers

    def owner(self, st, a):
        """the buffer an address points into, and the offset"""
        p = aspoly(a)
        if p is None:
            return None
        best = None
        for k in st.ts:
            if isinstance(k, tuple) and k[0] == "buf" and (k[1],) in p and p[(k[1],)] == 1:
                if best is not None:
                    return None
                q = dict(p)
                del q[(k[1],)]
                best = (k, norm1(q) if q else num(0))
        return best

    def touch(self, st, a, what):
        w = self.owner(st, a)
        if w and st.ts[w[0]][0] == "freed":
            self.bad(st, "buffer used after it was freed", "%s the buffer of %s after it was freed" % (what, st.ts[w[0]][2]))

    def free(self, st, ptr, size, maker, name):
        k = ("buf", ptr)
        if k not in st.ts:
            w = self.owner(st, ptr)
            if w:
                self.bad(st, "freed at another address", "%s is given an address inside the buffer, not its start" % name)
            elif const(ptr) == 0 or ptr in (UNDEF, NULL) or ptr[:2] == ("t", "lib") and st.facts.get(t("eq", *sorted((num(0), ptr), key=repr))):
                self.bad(st, "nothing to free", "%s is called with a null pointer" % name)
            elif ptr[:2] == ("t", "lib") or ptr[:2] == ("t", "arg") or frozen_path(ptr):
                self.bad(st, "freed with the wrong function", "%s is given %s" % (name, show(ptr)))
            else:
                st.doubt("a freed address is not understood: %s" % show(ptr))
            return
        state, sz, mk = st.ts[k]
        if mk != maker:
            self.bad(st, "freed with the wrong function", "the buffer of %s is freed with %s" % (mk, name))
        if state == "freed":
            self.bad(st, "buffer freed twice", "the buffer of %s is freed again" % mk)
        d = add(size, sz, -1)
        n = const(d) if d is not None else None
        if n == 0 or size == sz:
            self.report("ok", "freed with its size", self.where, "%s with size %s" % (name, show(size)))
        elif d is None or mentions(d, lambda x: isinstance(x, tuple) and x[:1] == ("t",) and len(x) > 1 and x[1] in ("lv", "lv2", "cnt", "call", "awaited", "pure", "elem", "ext")):
            self.report("unk", "freed with its size", self.where, "%s with size %s; made with %s" % (name, show(size), show(sz)))
        else:
            self.bad(st, "freed with another size", "%s gives size %s for a buffer of size %s" % (name, show(size), show(sz)))
        st.ts[k] = ("freed", sz, mk)

    # -- views

    def ext_new(self, f, args, st, node):
        nm = f[2] if f[:2] == ("t", "g") else None
        if nm in VIEWS and args:
            a = args[0]
            if a[:2] == ("t", "membuf"):
                off = args[1] if len(args) > 1 else num(0)
                ln = args[2] if len(args) > 2 else None
                if a[2] != st.ts.get("epoch", 0):
                    self.bad(st, "stale memory buffer", "a view is made over a memory buffer taken before a call that may grow the memory")
                v = self.new(st, O("view", x={"kind": "wasm", "addr": off, "off": num(0), "len": ln, "epoch": a[2], "buf": a, "ctor": nm}))
                self.extent(st, off, ln, VIEWS[nm])
                return [("n", v, st)]
            o = self.obj(st, a)
            if o is not None and o.k in ("view", "arr"):
                r = []
                for c, n, y in self.prop(a, "length", st, node):
                    i = self.new(y, O("view", x={"kind": "js", "len": n, "off": num(0), "ctor": nm}))

                    def go(x, el, j, i=i):
                        self.on_view(x.heap[i[1]], j, el, x, node)
                        return [("n", None, x)]
                    r += [(c2, i if c2 == "n" else w, z) for c2, w, z in self.over(node, a, y, go)]
                return r
            if len(args) == 1 and (numeric(a) or a[0] == "num"):
                return [("n", self.new(st, O("view", x={"kind": "js", "len": a, "off": num(0), "ctor": nm})), st)]
            if a[0] in ("comp", "tup", "flat") or frozen_path(a):
                n = index_value(a, "length") if a[0] != "flat" else None
                if n is not None:
                    i = self.new(st, O("view", x={"kind": "js", "len": n, "off": num(0), "ctor": nm}))

                    def go(x, el, j, i=i):
                        self.on_view(x.heap[i[1]], j, el, x, node)
                        return [("n", None, x)]
                    return [(c2, i if c2 == "n" else w, z) for c2, w, z in self.over(node, a, st, go)]
        if nm == "ImageData":
            st.ev("imagedata", tuple(args))
            return [("n", t("imagedata", *args), st)]
        return None

    def extent(self, st, off, ln, unit):
        """the view lies inside the buffer it starts in"""
        w = self.owner(st, off)
        if w is None:
            self.report("unk", "view inside its buffer", self.where, "a view at %s is not in a known buffer" % show(off))
            return
        self.touch(st, off, "a view is made of")
        state, size, mk = st.ts[w[0]]
        if ln is None:
            self.bad(st, "view beyond its buffer", "the view reaches to the end of the memory")
            return
        if mk == "compute_palette":
            size = mul(num(3), size)
        rest = add(add(size, w[1], -1), mul(num(unit), ln), -1) if numeric(ln) or ln[0] == "num" or ln[0] == "t" else None
        p = aspoly(rest) if rest is not None else None
        if p is None:
            self.report("unk", "view inside its buffer", self.where, "length %s" % show(ln))
        elif all(c >= 0 for c in p.values()):
            self.report("ok", "view inside its buffer", self.where, "%s + %s <= %s" % (show(w[1]), show(ln), show(size)))
        elif all(c <= 0 for c in p.values()):
            self.bad(st, "view beyond its buffer", "offset %s and length %s exceed the size %s" % (show(w[1]), show(ln), show(size)))
        else:
            self.report("unk", "view inside its buffer", self.where, "offset %s, length %s, size %s" % (show(w[1]), show(ln), show(size)))

    def on_view(self, o, key, val, st, node):
        if o.x["kind"] == "js":
            if key == "*":
                return None
            idx = add(o.x["off"], key)
            ident = next(i for i, q in st.heap.items() if q is o or q.x is o.x)
            ident = o.x.get("base", ident)
            if val is None:
                if "from" in o.x and not st.ts.get(("written", ident)):
                    return index_value(o.x["from"], idx)
                return t("jsel", ident, idx, self.fresh())
            st.ts[("written", ident)] = True
            st.ev("w", ("js", ident), idx, self.freeze(val, st))
            return None
        if o.x["epoch"] != st.ts.get("epoch", 0):
            self.bad(st, "stale memory view", "a view made before a call that may have grown the memory is used after it")
        addr = add(o.x["addr"], o.x["off"])
        self.touch(st, addr, "the worker accesses")
        if key == "*":
            return None
        at = add(addr, key)
        if at is None:
            return None
        if val is not None:
            st.ts["ver"] = st.ts.get("ver", 0)
            st.ev("w", "mem", at, self.freeze(val, st), o.x.get("ctor"))
            return None
        return t("mem", at, st.ts.get("ver", 0))

    def on_await(self, v, st, node):
        st.ts["epoch"] = st.ts.get("epoch", 0) + 1     # another request may run meanwhile
        if v[0] == "t" and self.inst is not None:
            z = st.fork()
            z.ts["threw"] = "what it awaits"
            return [("n", t("awaited", v), st), ("throw", t("rejected", v), z)]
        return None

    # -- requests

    def start(self):
        outs = self.module()
        self.inst = None
        self.starts = []
        for c, v, st in outs:
            if c != "n":
                continue
            for i, o in st.heap.items():
                if o.k == "inst" and self.method_of(st, o.x, "onRequest") is not None:
                    self.starts.append((st, ("ref", i)))
        if not self.starts:
            raise Abort("no object of the worker answers requests")
        self.strings = {n["value"] for n in walk(self.tree) if n["type"] == "Literal" and isinstance(n["value"], str)}
        self.strings |= {n["key"].get("name", n["key"].get("value")) for n in walk(self.tree) if n["type"] in ("Property", "MethodDefinition") and n["key"]["type"] in ("Identifier", "Literal")}

    def request(self, method, quiet=False):
        """the paths of a request with this method: [(completion, value, state)]"""
        self.where = "request " + method
        out = []
        rep = self.report
        if quiet:
            self.report = lambda *a: None
        try:
            for st, inst in self.starts:
                st = st.fork()
                st.log = ()
                st.ts = {"epoch": 0}
                self.inst = inst
                f = self.method_of(st, st.heap[inst[1]].x, "onRequest")
                payload = self.new(st, O("obj", p={"method": S(method), "args": ARGS}))
                for c, v, y in self.invoke(f, inst, [REQID, payload], st, None):
                    o = self.obj(y, v)
                    if o is not None and o.k == "promise" and o.x[0] == "err":
                        c, v = "throw", o.x[1]
                    out.append((c, v, y))
        finally:
            self.report = rep
        return out

    def paths(self, method):
        if not hasattr(self, "cache"):
            self.cache = {}
        if method not in self.cache:
            self.cache[method] = self.request(method)
        return self.cache[method]


def libs_of(log):
    for e in log:
        if e[0] == "lib":
            yield e
        elif e[0] == "loop":
            for l in e[3]:
                yield from libs_of(l)


def handled(paths):
    return any(r[0] == "sendResponse" for c, v, st in paths for r in st.ts.get("replies", ())) or any(True for c, v, st in paths for e in libs_of(st.log))


class Page(Interp):
    """The page: its event handlers, one event at a time from any earlier state."""
    keepcalls = False

    def __init__(self, report=None):
        super().__init__(PAGE)
        self.report = report or (lambda *a: None)
        self.handlers = []
        self.requests = {}
        self.where = "page load"
        self.callbacks = []

    def is_thread(self, v):
        return v[:2] == ("t", "new") and v[2][:2] == ("t", "import") and v[2][2] == "async-thread-worker"

    def ext_call(self, f, this, args, st, node):
        if f[:2] == ("t", "get") and f[3] in ("sendRequest",) and self.is_thread(f[2]):
            return self.send(args, st, node)
        if f[:2] == ("t", "get") and f[3] == "addEventListener" and len(args) >= 2:
            self.register(show(f[2]), args[0][1] if args[0][0] == "str" else "?", args[1], st)
            return [("n", UNDEF, st)]
        if f[:2] == ("t", "g") and f[2] in ("setTimeout", "setInterval", "requestAnimationFrame", "queueMicrotask") and args:
            self.register(f[2], "timer", args[0], st)
            return [("n", t("call", f, (), self.fresh()), st)]
        if f[0] == "t" and any(self.obj(st, a) is not None and self.obj(st, a).k == "fn" for a in args) and not (
                f[:2] == ("t", "get") and f[3] in ("then", "catch", "finally", "map", "forEach")) and f[1] != "method":
            for a in args:
                if self.obj(st, a) is not None and self.obj(st, a).k == "fn":
                    self.callbacks.append((show(f), a, st))
        return None

    def register(self, target, event, fn, st):
        if self.obj(st, fn) is not None and self.obj(st, fn).k == "fn":
            self.handlers.append((target, event, fn, st))

    def on_store(self, base, key, val, st, node):
        if isinstance(key, str) and key.startswith("on") and self.obj(st, val) is not None and self.obj(st, val).k == "fn":
            self.register(show(base), key[2:], val, st)
        if base in st.ts.get("sent", ()):
            pass

    def send(self, args, st, node):
        pl = self.obj(st, args[0]) if args else None
        m, a = None, None
        if pl is not None and pl.k == "obj":
            m = pl.p.get("method")
            a = self.freeze(pl.p.get("args", UNDEF), st)
        n = self.fresh()
        transfer = self.freeze(args[1], st) if len(args) > 1 else UNDEF
        name = m[1] if m is not None and m[0] == "str" else None
        self.requests[n] = (name, a, transfer, self.where)
        self.sending(name, a, transfer, st, n)
        if a is not None:
            for v in gone(st):
                if mentions(a, lambda x: x == v) and name is not None:
                    self.bad(st, "array used after it was handed over", "request %s passes an array that was transferred to the worker before" % name)
        if transfer[0] == "tup":
            st.ts["gone"] = st.ts.get("gone", ()) + tuple(x[2] for x in transfer[1] if x[:2] == ("t", "get") and x[3] == "buffer")
        st.ev("request", name, a, n)
        return [("n", t("request", name, n), st)]

    def bad(self, st, kind, what):
        self.report("unk" if st.unsure else "bad", kind, self.where, what)

    def sending(self, name, a, transfer, st, n):
        pass

    def prop(self, b, key, st, node):
        if key not in ("length",) and b in gone(st) and (isinstance(key, tuple) or key in ("data", "buffer")):
            self.bad(st, "array used after it was handed over", "an array that was transferred to the worker is read")
        return super().prop(b, key, st, node)

    def on_await(self, v, st, node):
        self.awaiting(v, st, node)
        if v[:2] == ("t", "request"):
            z = st.fork()
            z.ts["failed"] = v[2]
            return [("n", t("reply", v[2], v[3]), st), ("throw", t("failure", v[2], v[3]), z)]
        return None

    def awaiting(self, v, st, node):
        pass

    def start(self):
        """runs the top level, and finds every handler that is registered, directly or by another handler"""
        self.cells0 = {}
        outs = [(c, st) for c, v, st in self.module()]
        assigned = assigned_names(self.tree)
        members = {n["left"]["property"]["name"] for n in walk(self.tree)
                   if n["type"] == "AssignmentExpression" and n["left"]["type"] == "MemberExpression" and not n["left"].get("computed")}
        self.assigned, self.members = assigned, members
        self.entries = []
        done = set()
        i = 0
        while i < len(self.handlers):
            target, event, fn, st = self.handlers[i]
            i += 1
            node = st.heap[fn[1]].x[0]
            key = (re.sub(r"\[[^\]]*\]", "[]", target), event, node["loc"], node["type"])
            if key in done:
                continue
            done.add(key)
            self.where = "%s of %s" % (event, re.sub(r"\[[^\]]*\]", "[]", target))
            runs = self.run(fn, st)
            self.entries.append((self.where, runs))
        if any(c == "n" and any(requests_of(st.log)) for c, st in outs):
            self.entries.append(("page load", [(c, UNDEF, st) for c, st in outs]))
        return self.entries

    def run(self, fn, st):
        st = st.fork()
        st.log, st.facts, st.ext, st.ts = (), {}, {}, {}
        for n, v in list(st.heap[self.top].p.items()):
            if n in self.assigned:
                self.cells0[(self.top, n)] = v if not isinstance(v, tuple) or v[0] != "t" else v
                st.w(self.top).p[n] = t("init", n)
                st.ts[("cell", self.top, n)] = True
            o = self.obj(st, v)
            if o is not None and o.k in ("obj", "inst"):
                for p in list(o.p):
                    if p in self.members:
                        st.w(v[1]).p[p] = t("init", n + "." + p)
                        st.ts[("cell", v[1], p)] = True
        self.began(st)
        return self.invoke(fn, UNDEF, [t("event", self.fresh())], st, None)

    def began(self, st):
        pass


def requests_of(log):
    for e in log:
        if e[0] == "request":
            yield e
        elif e[0] == "loop":
            for l in e[3]:
                yield from requests_of(l)


def gone(st):
    return st.ts.get("gone", ())


def assigned_names(tree):
    """names that some function assigns (not their declaration)"""
    out = set()
    for n in walk(tree):
        if n["type"] == "AssignmentExpression":
            if n["left"]["type"] != "MemberExpression":
                out |= set(pattern_names(n["left"]))
        elif n["type"] == "UpdateExpression" and n["argument"]["type"] == "Identifier":
            out.add(n["argument"]["name"])
        elif n["type"] in ("ForOfStatement", "ForInStatement") and n["left"]["type"] != "VariableDeclaration":
            out |= set(pattern_names(n["left"]))
    return out


ROLE = {"create_image_weights": ["width", "height", "pixels"], "compute_palette": ["width", "height", "pixels", "min", "max", "error", "outsize"],
        "create_decomposed_image": ["weights", "count", "palette"], "reconstruct_image": ["decomposed", "palette", "output"],
        "grayscale_image_channel": ["decomposed", "channel", "output"], "free_image_weights": ["weights"], "free_decomposed_image": ["decomposed"],
        "get_decomposed_image_width": ["decomposed"], "get_decomposed_image_height": ["decomposed"], "get_decomposed_image_num_channels": ["decomposed"]}


def rewrite(v, f):
    if not isinstance(v, tuple):
        return v
    r = f(v)
    if r is not None:
        return r
    if v and v[0] == "num":
        x = num(0)
        for m, c in v[1]:
            y = num(c)
            for a in m:
                y = mul(y, rewrite(a, f)) or t("bad")
            x = add(x, y) or t("bad")
        return x
    if v[:2] == ("t", "get") and len(v) == 4:
        return index_value(rewrite(v[2], f), rewrite(v[3], f) if isinstance(v[3], tuple) else v[3])
    return tuple(rewrite(x, f) if isinstance(x, tuple) else x for x in v)


class System:
    """Worker and page together."""

    def __init__(self, wreport=None, preport=None, page=Page):
        self.w = Worker(wreport)
        self.w.start()
        self.p = page(preport)
        self.p.sys = self
        self.entries = self.p.start()

    def payloads(self, m):
        """what the worker answers a request with: payloads over the request's arguments"""
        out = []
        for c, v, st in self.w.paths(m):
            for r in st.ts.get("replies", ()):
                if r[0] == "sendResponse" and len(r[1]) > 1:
                    x = rewrite(r[1][1], lambda a: t("libres", a[2]) if a[:2] == ("t", "lib") else None)
                    if x not in out:
                        out.append(x)
        return out

    def resolve(self, v, d=0):
        """a value of the page, with replies replaced by what the worker answers"""
        def f(a):
            if a[:2] == ("t", "reply") and d < 6 and a[2] is not None:
                ps = self.payloads(a[2])
                rq = self.p.requests.get(a[3])
                if len(ps) == 1 and rq and rq[1] is not None:
                    args = self.resolve(rq[1], d + 1)
                    if ps[0][:2] == ("t", "libres"):
                        return ps[0]
                    return rewrite(ps[0], lambda b: args if b == ARGS else None)
            return None
        return rewrite(v, f)
