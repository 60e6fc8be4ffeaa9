"""Path-sensitive value-flow analysis of a JavaScript module.

The module's syntax tree (from jsast.js) is interpreted over symbolic values: numbers are polynomials over the unknown inputs, everything outside the
module is an uninterpreted term named by how it is reached. Conditions that the terms do not settle split the path. A loop is summarised by one
generic iteration (its counter recognised as an induction variable) after every variable it changes has been forgotten. Nothing is executed."""
import json, os, subprocess
from vbuild import REPO

HERE = os.path.dirname(os.path.abspath(__file__))
NODE = next((p for p in ("/usr/local/bin/node", "/usr/bin/node") if os.path.exists(p)), "node")


class Abort(Exception):
    pass


class SyntaxProblem(Exception):
    pass


def parse(path):
    r = subprocess.run([NODE, os.path.join(HERE, "jsast.js"), path], capture_output=True, text=True)
    if r.returncode:
        raise SyntaxProblem("%s does not parse: %s" % (path, r.stderr.strip().splitlines()[-1:] or ""))
    return json.loads(r.stdout)


# ---- values -----------------------------------------------------------------------------------------------------------------------------------------

UNDEF, NULL, TRUE, FALSE = ("undef",), ("null",), ("bool", True), ("bool", False)
NAN = ("t", "NaN")


def poly(d):
    return ("num", tuple(sorted(((k, c) for k, c in d.items() if c), key=repr)))


def num(c):
    if isinstance(c, float) and c == int(c):
        c = int(c)
    return poly({(): c})


def t(op, *a):
    return ("t", op) + a


def get(base, key):
    return t("get", base, key)


def S(s):
    return ("str", s)


def const(v):
    """the number of a constant, or None"""
    if v[0] == "num":
        if not v[1]:
            return 0
        if len(v[1]) == 1 and v[1][0][0] == ():
            return v[1][0][1]
    return None


def aspoly(v):
    if v[0] == "num":
        return dict(v[1])
    if v[0] == "bool":
        return {(): int(v[1])}
    if v[0] == "null":
        return {}
    if v[0] == "t" and v != NAN:
        return {(v,): 1}
    return None


def norm1(p):
    """a polynomial that is a single atom is that atom"""
    v = poly(p)
    if len(v[1]) == 1 and v[1][0][1] == 1 and len(v[1][0][0]) == 1:
        return v[1][0][0][0]
    return v


def add(a, b, s=1):
    pa, pb = aspoly(a), aspoly(b)
    if pa is None or pb is None:
        return None
    r = dict(pa)
    for k, c in pb.items():
        r[k] = r.get(k, 0) + s * c
    return norm1(r)


def mul(a, b):
    pa, pb = aspoly(a), aspoly(b)
    if pa is None or pb is None:
        return None
    r = {}
    for k, c in pa.items():
        for l, e in pb.items():
            m = tuple(sorted(k + l, key=repr))
            r[m] = r.get(m, 0) + c * e
    return norm1(r)


def subst(v, m):
    """replaces atoms in a value"""
    if v in m:
        return m[v]
    if not isinstance(v, tuple):
        return v
    if v[0] == "num":
        r = num(0)
        for k, c in v[1]:
            x = num(c)
            for a in k:
                y = mul(x, subst(a, m))
                if y is None:
                    return t("bad")
                x = y
            r = add(r, x)
        return r
    if v[0] == "t" and v[1] == "get" and len(v) == 4:
        return index_value(subst(v[2], m), subst(v[3], m) if isinstance(v[3], tuple) else v[3])
    return tuple(subst(x, m) if isinstance(x, tuple) else x for x in v)


def index_value(base, key):
    """a property of a frozen value"""
    if isinstance(key, tuple) and key[0] == "str":
        key = key[1]
    if base[0] == "tup":
        if key == "length":
            return num(len(base[1]))
        n = const(key) if isinstance(key, tuple) else None
        if n is not None:
            return base[1][n] if isinstance(n, int) and 0 <= n < len(base[1]) else UNDEF
    if base[0] == "comp":
        _, it, cnt, each = base
        if key == "length":
            return cnt
        if isinstance(key, tuple):
            return subst(each, {it: key})
    return get(base, key)


def mentions(v, f):
    if not isinstance(v, tuple):
        return False
    return f(v) or any(mentions(x, f) for x in v)


class O:
    """an object of the analysed module"""
    __slots__ = ("k", "p", "el", "x")

    def __init__(self, k, p=None, el=None, x=None):
        self.k, self.p, self.el, self.x = k, p if p is not None else {}, el, x

    def same(self, o):
        return self.k == o.k and self.p == o.p and self.el == o.el and (self.x is o.x or self.x == o.x)

    def copy(self):
        return O(self.k, dict(self.p), list(self.el) if self.el is not None else None, self.x)


class St:
    __slots__ = ("heap", "facts", "ext", "ts", "log", "unsure")

    def __init__(self):
        self.heap, self.facts, self.ext, self.ts, self.log, self.unsure = {}, {}, {}, {}, (), ""

    def fork(self):
        s = St()
        s.heap, s.facts, s.ext, s.ts, s.log, s.unsure = dict(self.heap), dict(self.facts), dict(self.ext), dict(self.ts), self.log, self.unsure
        return s

    def w(self, i):
        o = self.heap[i].copy()
        self.heap[i] = o
        return o

    def ev(self, *e):
        self.log += (e,)

    def doubt(self, why):
        self.unsure = self.unsure or why

    def outside(self):
        """something outside the module ran: what was learnt about outside properties may be stale"""
        def mut(v):
            return v[:2] == ("t", "get") and not frozen_path(v)
        for k in [k for k in self.facts if mentions(k, mut)]:
            del self.facts[k]


def frozen_path(v):
    while isinstance(v, tuple) and v[:2] == ("t", "get"):
        v = v[2]
    return isinstance(v, tuple) and v[:2] in (("t", "arg"), ("t", "lib"), ("t", "it"))


BIG = 3000


class Interp:
    keepcalls = True

    def __init__(self, path):
        self.path = path
        self.file = os.path.relpath(path, REPO)
        self.tree = parse(path)
        self.n = 0
        self.depth = 0
        self.fn_seen = set()

    def fresh(self):
        self.n += 1
        return self.n

    def new(self, st, o):
        i = self.fresh()
        st.heap[i] = o
        return ("ref", i)

    def obj(self, st, v):
        return st.heap.get(v[1]) if v[0] == "ref" else None

    def arr(self, st, vals):
        return self.new(st, O("arr", el=list(vals)))

    # ---- hooks of the clients -----------------------------------------------------------------------------------------------------------------

    def ext_call(self, f, this, args, st, node):
        """a call of something outside the module: a list of outcomes, or None for the default"""
        return None

    def ext_new(self, f, args, st, node):
        return None

    def on_await(self, v, st, node):
        return None

    def on_view(self, o, key, val, st, node):
        """an element of a typed array is read (val None) or written; the value read, or None"""
        return None

    def on_store(self, base, key, val, st, node):
        pass

    def on_detach(self, st, v):
        pass

    def on_resolve(self, st, promise):
        pass

    def on_async(self, before, st, promise):
        """an asynchronous function was called and made this promise"""

    # ---- scopes -------------------------------------------------------------------------------------------------------------------------------

    def scope(self, st, up):
        return self.new(st, O("scope", x=up))[1]

    def find(self, st, sc, name):
        while sc is not None:
            o = st.heap[sc]
            if name in o.p:
                return sc
            sc = o.x
        return None

    def lookup(self, st, sc, name):
        i = self.find(st, sc, name)
        if i is not None:
            return st.heap[i].p[name]
        if name == "undefined":
            return UNDEF
        if name == "NaN":
            return NAN
        return ("t", "g", name)

    def setvar(self, st, sc, name, v):
        i = self.find(st, sc, name)
        if i is None:
            st.ev("global", name)
            st.ext[("t", "g", name)] = v
            return
        st.w(i).p[name] = v

    def hoist(self, st, sc, body):
        """function and var declarations are visible in the whole scope"""
        for s in body:
            d = s
            if s["type"] in ("ExportNamedDeclaration", "ExportDefaultDeclaration") and s.get("declaration"):
                d = s["declaration"]
            if d["type"] == "FunctionDeclaration":
                st.w(sc).p[d["id"]["name"] if d.get("id") else "default"] = self.func(st, sc, d, None)
        for n in var_names(body):
            if n not in st.heap[sc].p:
                st.w(sc).p[n] = UNDEF
        for s in body:
            d = s.get("declaration") if s["type"] == "ExportNamedDeclaration" and s.get("declaration") else s
            if d["type"] == "VariableDeclaration" and d["kind"] != "var":
                for dc in d["declarations"]:
                    for n in pattern_names(dc["id"]):
                        if n not in st.heap[sc].p:
                            st.w(sc).p[n] = UNDEF
            elif d["type"] == "ClassDeclaration":
                st.w(sc).p.setdefault(d["id"]["name"], UNDEF)

    def func(self, st, sc, node, this):
        return self.new(st, O("fn", x=(node, sc, this)))

    # ---- running ------------------------------------------------------------------------------------------------------------------------------

    def module(self):
        """the states after the module's top level"""
        st = St()
        sc = self.scope(st, None)
        self.top = sc
        r = self.block(self.tree["body"], st, sc)
        self.final = [(c, v, s) for c, v, s in r]
        return self.final

    def block(self, body, st, sc):
        self.hoist(st, sc, body)
        outs, live = [], [st]
        for s in body:
            nxt = []
            for x in live:
                for c, v, y in self.stmt(s, x, sc):
                    if c == "n":
                        nxt.append(y)
                    else:
                        outs.append((c, v, y))
            live = self.merge(nxt) if len(nxt) > 1 else nxt
            if len(live) + len(outs) > BIG:
                raise Abort("too many paths")
            if not live:
                break
        return outs + [("n", None, x) for x in live]

    def merge(self, states):
        """paths that differ only in what was learnt, not in what was done, go on as one"""
        out = []
        for x in states:
            for y in out:
                if x.log == y.log and x.ts == y.ts and x.ext == y.ext and bool(x.unsure) == bool(y.unsure) and all(
                        o is y.heap[i] or o.same(y.heap[i]) for i, o in x.heap.items() if i in y.heap):
                    y.facts = {k: v for k, v in y.facts.items() if x.facts.get(k) == v}
                    for i, o in x.heap.items():
                        y.heap.setdefault(i, o)
                    break
            else:
                out.append(x)
        return out

    def stmt(self, s, st, sc):
        f = getattr(self, "s_" + s["type"], None)
        if f is None:
            raise Abort("statement " + s["type"])
        return f(s, st, sc)

    def s_ImportDeclaration(self, s, st, sc):
        for sp in s["specifiers"]:
            nm = sp["imported"]["name"] if sp["type"] == "ImportSpecifier" else "default" if sp["type"] == "ImportDefaultSpecifier" else "*"
            st.w(sc).p[sp["local"]["name"]] = ("t", "import", s["source"]["value"], nm)
        return [("n", None, st)]

    def s_ExportNamedDeclaration(self, s, st, sc):
        return self.stmt(s["declaration"], st, sc) if s.get("declaration") else [("n", None, st)]

    def s_ExportDefaultDeclaration(self, s, st, sc):
        d = s["declaration"]
        if d["type"] in ("FunctionDeclaration", "ClassDeclaration"):
            return self.stmt(d, st, sc)
        return [(c, None if c == "n" else v, y) for c, v, y in self.ex(d, st, sc)]

    def s_EmptyStatement(self, s, st, sc):
        return [("n", None, st)]

    s_DebuggerStatement = s_FunctionDeclaration = s_EmptyStatement

    def s_ClassDeclaration(self, s, st, sc):
        out = []
        for c, v, y in self.e_ClassExpression(s, st, sc):
            if c == "n":
                y.w(sc).p[s["id"]["name"]] = v
            out.append((c, None if c == "n" else v, y))
        return out

    def s_ExpressionStatement(self, s, st, sc):
        out = []
        for c, v, y in self.ex(s["expression"], st, sc):
            if c == "n":
                self.on_detach(y, v)
                v = None
            out.append((c, v, y))
        return out

    def s_VariableDeclaration(self, s, st, sc):
        live, out = [st], []
        for d in s["declarations"]:
            nxt = []
            for x in live:
                if d.get("init") is None:
                    if s["kind"] != "var":
                        for n in pattern_names(d["id"]):
                            x.w(sc).p[n] = UNDEF
                    nxt.append(x)
                    continue
                for c, v, y in self.ex(d["init"], x, sc):
                    if c != "n":
                        out.append((c, v, y))
                        continue
                    for c2, v2, z in self.bind(d["id"], v, y, sc, decl=s["kind"]):
                        (nxt if c2 == "n" else out).append(z if c2 == "n" else (c2, v2, z))
            live = nxt
        return out + [("n", None, x) for x in live]

    def s_BlockStatement(self, s, st, sc):
        return self.block(s["body"], st, self.scope(st, sc))

    def s_ReturnStatement(self, s, st, sc):
        if s.get("argument") is None:
            return [("ret", UNDEF, st)]
        return [("ret" if c == "n" else c, v, y) for c, v, y in self.ex(s["argument"], st, sc)]

    def s_ThrowStatement(self, s, st, sc):
        return [("throw", v, y) for c, v, y in self.ex(s["argument"], st, sc)]

    def s_IfStatement(self, s, st, sc):
        out = []
        for c, v, y in self.ex(s["test"], st, sc):
            if c != "n":
                out.append((c, v, y))
                continue
            for b, z in self.cond(v, y):
                if b:
                    out += self.stmt(s["consequent"], z, sc)
                elif s.get("alternate"):
                    out += self.stmt(s["alternate"], z, sc)
                else:
                    out.append(("n", None, z))
        return out

    def s_SwitchStatement(self, s, st, sc):
        out = []
        for c, d, y in self.ex(s["discriminant"], st, sc):
            if c != "n":
                out.append((c, d, y))
                continue
            sc2 = self.scope(y, sc)
            self.hoist(y, sc2, [b for k in s["cases"] for b in k["consequent"]])
            pend = [(0, y)]
            starts = []
            default = None
            for i, k in enumerate(s["cases"]):
                if k["test"] is None:
                    default = i
                    continue
                nxt = []
                for _, x in pend:
                    for c2, v, z in self.ex(k["test"], x, sc2):
                        if c2 != "n":
                            out.append((c2, v, z))
                            continue
                        for b, w in self.cond(self.binary("===", d, v, z), z):
                            if b:
                                starts.append((i, w))
                            else:
                                nxt.append((i, w))
                pend = nxt
            for _, x in pend:
                if default is None:
                    out.append(("n", None, x))
                else:
                    starts.append((default, x))
            for i, x in starts:
                live = [x]
                for k in s["cases"][i:]:
                    for b in k["consequent"]:
                        nxt = []
                        for x2 in live:
                            for c2, v, z in self.stmt(b, x2, sc2):
                                if c2 == "n":
                                    nxt.append(z)
                                elif c2 == "brk" and v is None:
                                    out.append(("n", None, z))
                                else:
                                    out.append((c2, v, z))
                        live = nxt
                out += [("n", None, x2) for x2 in live]
        return out

    def s_BreakStatement(self, s, st, sc):
        return [("brk", s["label"]["name"] if s.get("label") else None, st)]

    def s_ContinueStatement(self, s, st, sc):
        return [("cont", s["label"]["name"] if s.get("label") else None, st)]

    def s_LabeledStatement(self, s, st, sc):
        s["body"]["_label"] = s["label"]["name"]
        return [("n", None, y) if c == "brk" and v == s["label"]["name"] else (c, v, y) for c, v, y in self.stmt(s["body"], st, sc)]

    def s_TryStatement(self, s, st, sc):
        mid = []
        for c, v, y in self.stmt(s["block"], st, sc):
            if c == "throw" and s.get("handler"):
                h = s["handler"]
                sc2 = self.scope(y, sc)
                if h.get("param"):
                    for c2, v2, z in self.bind(h["param"], v, y, sc2, decl="let"):
                        mid += self.stmt(h["body"], z, sc2) if c2 == "n" else [(c2, v2, z)]
                else:
                    mid += self.stmt(h["body"], y, sc2)
            else:
                mid.append((c, v, y))
        if not s.get("finalizer"):
            return mid
        out = []
        for c, v, y in mid:
            for c2, v2, z in self.stmt(s["finalizer"], y, sc):
                out.append((c, v, z) if c2 == "n" else (c2, v2, z))
        return out

    # ---- loops --------------------------------------------------------------------------------------------------------------------------------

    def s_ForStatement(self, s, st, sc):
        sc2 = self.scope(st, sc)
        outs = []
        live = [st]
        if s.get("init"):
            live = []
            if s["init"]["type"] == "VariableDeclaration":
                self.hoist(st, sc2, [s["init"]])
                r = self.stmt(s["init"], st, sc2)
            else:
                r = self.ex(s["init"], st, sc2)
            for c, v, y in r:
                (live if c == "n" else outs).append(y if c == "n" else (c, v, y))
        for x in live:
            outs += self.loop(s, x, sc2, s.get("test"), s["body"], s.get("update"), s.get("_label"))
        return outs

    def s_WhileStatement(self, s, st, sc):
        return self.loop(s, st, sc, s["test"], s["body"], None, s.get("_label"))

    def s_DoWhileStatement(self, s, st, sc):
        out = []
        for c, v, y in self.stmt(s["body"], st, sc):
            if c == "n" or c == "cont" and v in (None, s.get("_label")):
                out += self.loop(s, y, sc, s["test"], s["body"], None, s.get("_label"))
            elif c == "brk" and v is None:
                out.append(("n", None, y))
            else:
                out.append((c, v, y))
        return out

    def loop(self, node, st, sc, test, body, update, label):
        """while (test) { body; update }"""
        def test_of(x):
            return self.ex(test, x, sc) if test else [("n", TRUE, x)]

        def step(x):
            out = []
            for c, v, y in self.stmt(body, x, sc):
                if c == "n" or c == "cont" and v in (None, label):
                    if update:
                        out += [(c2, None if c2 == "n" else v2, z) for c2, v2, z in self.ex(update, y, sc)]
                    else:
                        out.append(("n", None, y))
                else:
                    out.append((c, v, y))
            return out
        # a loop that the constants unroll
        outs, live, rounds = [], [st], 0
        while live and rounds < 18:
            nxt = []
            ok = True
            for x in live:
                p = x.fork()
                p.facts = {}
                r = test_of(p)
                if len(r) != 1 or r[0][0] != "n" or self.truth(r[0][1]) is None or test is None:
                    ok = False
            if not ok:
                break
            for x in live:
                (c, v, y), = test_of(x)
                if not self.truth(v):
                    outs.append(("n", None, y))
                    continue
                for c, v, z in step(y):
                    if c == "n":
                        nxt.append(z)
                    elif c == "brk" and v is None:
                        outs.append(("n", None, z))
                    else:
                        outs.append((c, v, z))
            live = nxt
            rounds += 1
        for x in live:
            outs += self.generic(x, lambda y, it: [(c, v, z) for c, v, z in test_of(y)], step, node)
        return outs

    def for_each(self, node, st, count, step):
        """a loop over 0 .. count with a known number of rounds; step(state, counter)"""
        n = const(count)
        if n is not None and n <= 16:
            outs, live = [], [st]
            for i in range(n):
                nxt = []
                for x in live:
                    for c, v, y in step(x, num(i)):
                        if c == "n" or c == "cont" and v is None:
                            nxt.append(y)
                        elif c == "brk" and v is None:
                            outs.append(("n", None, y))
                        else:
                            outs.append((c, v, y))
                live = nxt
            return outs + [("n", None, x) for x in live]
        return self.generic(st, None, lambda y: step(y, None), node, count=count, step2=step)

    def generic(self, st, test, step, node, count=None, step2=None):
        it = t("it", self.fresh())
        mark = self.n
        hav = {}               # cell -> its value at the head of the generic iteration
        cells0 = self.cells(st)
        for _ in range(12):
            h = st.fork()
            h.facts = {}
            h.log = ()
            for c, v in hav.items():
                self.setcell(h, c, v)
            heads = [("n", TRUE, h)] if test is None else test(h, it)
            ends, others = [], []
            bound = None
            for c, v, y in heads:
                if c != "n":
                    others.append((c, v, y))
                    continue
                bound = v
                y = y.fork()
                if self.truth(v) is False:
                    continue
                for b, z in self.cond(v, y):
                    if not b:
                        continue
                    for c2, v2, w in (step(z) if step2 is None else step2(z, it)):
                        if c2 == "n" or c2 == "cont" and v2 is None:
                            ends.append(w)
                        else:
                            others.append((c2, v2, w))
            ch = {}
            for w in ends:
                cw = self.cells(w)
                for c, v in cells0.items():
                    now = cw.get(c)
                    want = hav.get(c, v)
                    if now != want:
                        ch.setdefault(c, []).append(now)
                for c in cw:
                    if c not in cells0 and c[0] in st.heap:
                        ch.setdefault(c, []).append(cw[c])
            # induction variables: the same constant step on every path
            new = {}
            for c, vs in ch.items():
                head = hav.get(c, cells0.get(c))
                if c in hav and hav[c][:2] == ("t", "lv") or c not in hav:
                    steps = set()
                    for w in ends:
                        now = self.cells(w).get(c)
                        d = add(now, head, -1) if now and head and now[0] in ("num", "t") and head[0] in ("num", "t") else None
                        steps.add(const(d) if d is not None else None)
                    k = steps.pop() if len(steps) == 1 else None
                    if k and (hav.get(c) or ("",))[:2] != ("t", "lv2") and isinstance(cells0.get(c), tuple) and cells0[c][0] in ("num", "t"):
                        new[c] = add(cells0[c], mul(num(k), it))
                    elif isinstance(c[1], str) and c[1] == "[]":
                        new[c] = ("grow",)
                    else:
                        new[c] = t("lv2", self.fresh(), str(c[1]))
                elif isinstance(hav[c], tuple) and mentions(hav[c], lambda v: v == it):
                    # an induction variable: its end value must be the next one
                    nxt = subst(hav[c], {it: add(it, num(1))})
                    if all(self.cells(w).get(c) == nxt for w in ends):
                        continue
                    new[c] = t("lv2", self.fresh(), str(c[1]))
            new = {c: v for c, v in new.items() if hav.get(c) != v}
            new = {c: v for c, v in new.items() if not (hav.get(c, ("",))[:2] == ("t", "lv2"))}
            if not new:
                break
            hav.update(new)
        else:
            raise Abort("loop does not settle")
        # how often
        if count is None and test is not None and bound is not None:
            count = self.trip(bound, it)
        known = count is not None
        if count is None:
            count = t("cnt", self.fresh())
        outs = []
        for c, v, w in others:
            w.facts = {**st.facts, **w.facts}
            w.log = st.log + (("loop", it, count, (w.log,), "part"),)
            if c == "brk" and v is None:
                self.after(w, hav, it, None, [w], st)
                outs.append(("n", None, w))
            else:
                outs.append((c, v, w))
        groups = {}
        for w in ends:
            groups.setdefault(repr(sorted(w.ts.items(), key=repr)), []).append(w)
        base_ts = repr(sorted(st.ts.items(), key=repr))
        z = st.fork()
        for k, ws in groups.items():
            if k != base_ts:
                continue
            for w in ws:
                for i, o in w.heap.items():
                    z.heap.setdefault(i, o)
                for e, v in w.ext.items():
                    if st.ext.get(e) != v:
                        z.ext[e] = t("lv2", self.fresh(), "ext")
        z.log = st.log + (("loop", it, count, tuple(w.log for w in ends), "all"),)
        self.after(z, hav, it, count if known else None, ends, st)
        if any(w.unsure for w in ends):
            z.doubt(next(w.unsure for w in ends if w.unsure))
        z.outside()
        infinite = test is not None and self.truth(bound if bound is not None else TRUE) is True
        if not infinite:
            outs.append(("n", None, z))
        for k, ws in groups.items():
            if k == base_ts or infinite:
                continue
            y = z.fork()
            y.ts = dict(ws[0].ts)
            for i, o in ws[0].heap.items():
                y.heap.setdefault(i, o)
            self.mixed(y, st, ws[0])
            outs.append(("n", None, y))
        return outs

    def mixed(self, y, before, after):
        y.doubt("a loop changes what is tracked")

    def after(self, z, hav, it, count, ends, st):
        for c, v in hav.items():
            if v == ("grow",) or c[1] == "[]":
                o = st.heap[c[0]]
                n0 = len(o.el or ())
                each = None
                okk = o.el == [] and count is not None and bool(ends)
                for w in ends:
                    e = w.heap[c[0]].el
                    if e is None or len(e) != n0 + 1 or each is not None and each != self.freeze(e[-1], w):
                        okk = False
                        break
                    each = self.freeze(e[-1], w)
                q = z.w(c[0])
                q.el = None
                q.x = ("comp", it, count, each) if okk else t("grown", self.fresh())
            elif mentions(v, lambda a: a == it):
                self.setcell(z, c, subst(v, {it: count}) if count is not None else t("lv2", self.fresh(), str(c[1])))
            else:
                self.setcell(z, c, t("lv2", self.fresh(), str(c[1])))

    def trip(self, b, it):
        """the number of rounds of a loop whose condition is b"""
        if b[:2] == ("t", "pos"):
            p = dict(b[2][1]) if b[2][0] == "num" else {(b[2],): 1}
            k = p.pop((it,), 0)
            if k == -1 and not any(it in m for m in p):
                return norm1(p)
        if b[:2] == ("t", "not") and b[2][:2] == ("t", "eq"):
            d = add(b[2][2], b[2][3], -1)
            if d is not None:
                p = aspoly(d)
                k = p.pop((it,), 0)
                if k in (1, -1) and not any(it in m for m in p):
                    return mul(num(-k), norm1(p))
        if b[:2] == ("t", "not") and b[2][:2] == ("t", "pos"):
            p = aspoly(b[2][2]) or {}
            k = p.pop((it,), 0)
            if k == 1 and not any(it in m for m in p):       # not (it - e > 0): it <= e
                return add(mul(num(-1), norm1(p)), num(1))
        return None

    def cells(self, st):
        r = {}
        for i, o in st.heap.items():
            if o.k in ("scope", "obj", "inst"):
                for n, v in o.p.items():
                    r[(i, n)] = v
            elif o.k == "arr":
                r[(i, "[]")] = ("el",) + tuple(o.el) if o.el is not None else ("x", o.x)
        return r

    def setcell(self, st, c, v):
        if c[1] == "[]":
            return
        st.w(c[0]).p[c[1]] = v

    def s_ForOfStatement(self, s, st, sc):
        out = []
        for c, v, y in self.ex(s["right"], st, sc):
            if c != "n":
                out.append((c, v, y))
                continue
            out += self.over(s, v, y, lambda x, el, i: self.for_of_body(s, x, sc, el))
        return out

    def for_of_body(self, s, x, sc, el):
        sc2 = self.scope(x, sc)
        out = []
        lhs = s["left"]
        if lhs["type"] == "VariableDeclaration":
            r = self.bind(lhs["declarations"][0]["id"], el, x, sc2, decl=lhs["kind"] if lhs["kind"] != "var" else "let")
        else:
            r = self.bind(lhs, el, x, sc2)
        for c2, v2, z in r:
            if c2 != "n":
                out.append((c2, v2, z))
                continue
            for c3, v3, w in self.stmt(s["body"], z, sc2):
                out.append(("n", None, w) if c3 == "cont" and v3 in (None, s.get("_label")) else (c3, v3, w))
        return out

    def over(self, node, v, st, body):
        """runs body(state, element, index) for the elements of a value"""
        o = self.obj(st, v)
        if o is not None and o.k == "arr" and o.el is not None:
            els = list(o.el)
            return self.for_each(node, st, num(len(els)), lambda x, i: body(x, els[const(i)], i))
        if v[0] == "tup":
            return self.for_each(node, st, num(len(v[1])), lambda x, i: body(x, v[1][const(i)], i))
        if v[0] == "str":
            return self.for_each(node, st, num(len(v[1])), lambda x, i: body(x, S(v[1][const(i)]), i))
        (c, n, y), = self.prop(v, "length", st, node)[:1]

        def go(x, i):
            out = []
            for c2, el, z in self.prop(v, i, x, node):
                out += body(z, el, i) if c2 == "n" else [(c2, el, z)]
            return out
        return self.for_each(node, y, n, go)

    def s_ForInStatement(self, s, st, sc):
        out = []
        for c, v, y in self.ex(s["right"], st, sc):
            if c != "n":
                out.append((c, v, y))
                continue
            o = self.obj(y, v)
            if o is not None and o.k == "obj":
                keys = [S(k) for k in o.p]
                out += self.for_each(s, y, num(len(keys)), lambda x, i: self.for_of_body(s, x, sc, keys[const(i)]))
            elif o is not None and o.k == "arr" and o.el is not None:
                n = len(o.el)
                out += self.for_each(s, y, num(n), lambda x, i: self.for_of_body(s, x, sc, S(str(const(i)))))
            else:
                raise Abort("for-in over an unknown object")
        return out

    # ---- binding ------------------------------------------------------------------------------------------------------------------------------

    def bind(self, p, v, st, sc, decl=None):
        k = p["type"]
        if k == "Identifier":
            if decl == "var" or decl is None:
                self.setvar(st, sc, p["name"], v)
            else:
                st.w(sc).p[p["name"]] = v
            return [("n", None, st)]
        if k == "MemberExpression":
            out = []
            for c, (b, key), y in self.target(p, st, sc):
                out += self.store(b, key, v, y, p) if c == "n" else [(c, b, y)]
            return out
        if k == "AssignmentPattern":
            out = []
            if v == UNDEF:
                cs = [(True, st)]
            elif v[0] in ("t",) and not frozen_path(v):
                cs = self.cond(t("eq", *sorted((v, UNDEF), key=repr)), st)
            elif v[0] == "t":
                cs = self.cond(t("eq", *sorted((v, UNDEF), key=repr)), st)
            else:
                cs = [(False, st)]
            for b, y in cs:
                if b:
                    for c, d, z in self.ex(p["right"], y, sc):
                        out += self.bind(p["left"], d, z, sc, decl) if c == "n" else [(c, d, z)]
                else:
                    out += self.bind(p["left"], v, y, sc, decl)
            return out
        if k == "ArrayPattern":
            live, out = [st], []
            for i, e in enumerate(p["elements"]):
                if e is None:
                    continue
                nxt = []
                for x in live:
                    if e["type"] == "RestElement":
                        r = [(c, w, y) for c, w, y in self.rest(v, i, x)]
                        e2 = e["argument"]
                    else:
                        r = self.prop(v, num(i), x, p)
                        e2 = e
                    for c, w, y in r:
                        if c != "n":
                            out.append((c, w, y))
                            continue
                        for c2, w2, z in self.bind(e2, w, y, sc, decl):
                            (nxt if c2 == "n" else out).append(z if c2 == "n" else (c2, w2, z))
                live = nxt
            return out + [("n", None, x) for x in live]
        if k == "ObjectPattern":
            live, out = [st], []
            for e in p["properties"]:
                nxt = []
                for x in live:
                    if e["type"] == "RestElement":
                        raise Abort("object rest")
                    if e.get("computed"):
                        ks = self.ex(e["key"], x, sc)
                    else:
                        ks = [("n", S(e["key"].get("name", e["key"].get("value"))), x)]
                    for c0, key, x2 in ks:
                        if c0 != "n":
                            out.append((c0, key, x2))
                            continue
                        for c, w, y in self.prop(v, self.key(key), x2, p):
                            if c != "n":
                                out.append((c, w, y))
                                continue
                            for c2, w2, z in self.bind(e["value"], w, y, sc, decl):
                                (nxt if c2 == "n" else out).append(z if c2 == "n" else (c2, w2, z))
                live = nxt
            return out + [("n", None, x) for x in live]
        raise Abort("pattern " + k)

    def rest(self, v, i, st):
        o = self.obj(st, v)
        if o is not None and o.k == "arr" and o.el is not None:
            return [("n", self.arr(st, o.el[i:]), st)]
        if v[0] == "tup":
            return [("n", self.arr(st, v[1][i:]), st)]
        return [("n", t("rest", v, i), st)]

    # ---- expressions --------------------------------------------------------------------------------------------------------------------------

    def ex(self, e, st, sc):
        f = getattr(self, "e_" + e["type"], None)
        if f is None:
            raise Abort("expression " + e["type"])
        return f(e, st, sc)

    def seq(self, es, st, sc):
        """several expressions in order: [(c, values, state)]"""
        live, out = [([], st)], []
        for e in es:
            nxt = []
            for vs, x in live:
                if e["type"] == "SpreadElement":
                    for c, v, y in self.ex(e["argument"], x, sc):
                        if c != "n":
                            out.append((c, v, y))
                            continue
                        o = self.obj(y, v)
                        if o is not None and o.k == "arr" and o.el is not None:
                            nxt.append((vs + list(o.el), y))
                        elif v[0] == "tup":
                            nxt.append((vs + list(v[1]), y))
                        else:
                            nxt.append((vs + [("spread", self.freeze(v, y))], y))
                else:
                    for c, v, y in self.ex(e, x, sc):
                        if c == "n":
                            nxt.append((vs + [v], y))
                        else:
                            out.append((c, v, y))
            live = nxt
        return out + [("n", vs, x) for vs, x in live]

    def e_Literal(self, e, st, sc):
        v = e["value"]
        if isinstance(v, bool):
            r = ("bool", v)
        elif v is None and not e.get("regex"):
            r = NULL
        elif isinstance(v, (int, float)):
            r = num(v)
        elif isinstance(v, str):
            r = S(v)
        elif e.get("regex"):
            r = t("regex", e["regex"]["pattern"], e["regex"]["flags"])
        else:
            r = t("lit", str(v))
        return [("n", r, st)]

    def e_Identifier(self, e, st, sc):
        v = self.lookup(st, sc, e["name"])
        if v[:2] == ("t", "g") and v in st.ext:
            v = st.ext[v]
        return [("n", v, st)]

    def e_ThisExpression(self, e, st, sc):
        return [("n", self.lookup(st, sc, "this"), st)]

    def e_TemplateLiteral(self, e, st, sc):
        out = []
        for c, vs, y in self.seq(e["expressions"], st, sc):
            if c != "n":
                out.append((c, vs, y))
                continue
            r = S(e["quasis"][0]["value"]["cooked"])
            for v, q in zip(vs, e["quasis"][1:]):
                r = self.cat(self.cat(r, self.tostr(v)), S(q["value"]["cooked"]))
            out.append(("n", r, y))
        return out

    def tostr(self, v):
        if v[0] == "str":
            return v
        n = const(v)
        if isinstance(n, int):
            return S(str(n))
        return v if v[:2] == ("t", "cat") else t("cat", v)

    def cat(self, a, b):
        """string concatenation, flattened"""
        pa = a[2:] if a[:2] == ("t", "cat") else (a,)
        pb = b[2:] if b[:2] == ("t", "cat") else (b,)
        out = []
        for x in pa + pb:
            if x == S(""):
                continue
            if out and out[-1][0] == "str" and x[0] == "str":
                out[-1] = S(out[-1][1] + x[1])
            else:
                out.append(x)
        if not out:
            return S("")
        if len(out) == 1 and out[0][0] == "str":
            return out[0]
        return t("cat", *out)

    def e_ArrayExpression(self, e, st, sc):
        if any(x is None for x in e["elements"]):
            raise Abort("array hole")
        out = []
        for c, vs, y in self.seq(e["elements"], st, sc):
            if c != "n":
                out.append((c, vs, y))
            elif len(vs) == 1 and vs[0][0] == "spread":
                out.append(("n", self.new(y, O("arr", el=None, x=vs[0][1])), y))
            elif any(v[0] == "spread" for v in vs):
                out.append(("n", self.new(y, O("arr", el=None, x=t("mix", *vs))), y))
            else:
                out.append(("n", self.arr(y, vs), y))
        return out

    def e_ObjectExpression(self, e, st, sc):
        live, out = [({}, st)], []
        for p in e["properties"]:
            nxt = []
            for d, x in live:
                if p["type"] == "SpreadElement":
                    for c, v, y in self.ex(p["argument"], x, sc):
                        o = self.obj(y, v)
                        if c != "n":
                            out.append((c, v, y))
                        elif o is not None and o.k == "obj":
                            nxt.append(({**d, **o.p}, y))
                        else:
                            nxt.append(({**d, "...": v}, y))
                    continue
                ks = self.ex(p["key"], x, sc) if p.get("computed") else [("n", S(str(p["key"].get("name", p["key"].get("value")))), x)]
                for c0, key, x2 in ks:
                    if c0 != "n":
                        out.append((c0, key, x2))
                        continue
                    k = self.key(key)
                    if not isinstance(k, str):
                        raise Abort("computed property")
                    if p["kind"] != "init":
                        raise Abort("accessor")
                    for c, v, y in self.ex(p["value"], x2, sc):
                        (nxt if c == "n" else out).append(({**d, k: v}, y) if c == "n" else (c, v, y))
            live = nxt
        return out + [("n", self.new(x, O("obj", p=d)), x) for d, x in live]

    def e_FunctionExpression(self, e, st, sc):
        if e.get("id"):
            sc = self.scope(st, sc)
            f = self.func(st, sc, e, None)
            st.w(sc).p[e["id"]["name"]] = f
            return [("n", f, st)]
        return [("n", self.func(st, sc, e, None), st)]

    def e_ArrowFunctionExpression(self, e, st, sc):
        return [("n", self.func(st, sc, e, None), st)]

    def e_ClassExpression(self, e, st, sc):
        sup = [("n", None, st)]
        if e.get("superClass"):
            sup = self.ex(e["superClass"], st, sc)
        out = []
        for c, sv, y in sup:
            if c != "n":
                out.append((c, sv, y))
                continue
            methods, statics, fields, ctor = {}, {}, [], None
            for m in e["body"]["body"]:
                if m["type"] == "MethodDefinition":
                    if m["kind"] in ("get", "set"):
                        raise Abort("accessor")
                    nm = m["key"].get("name", m["key"].get("value"))
                    if m["key"]["type"] == "PrivateIdentifier":
                        nm = "#" + nm
                    f = self.func(y, sc, m["value"], None)
                    if m["kind"] == "constructor":
                        ctor = f
                    else:
                        (statics if m["static"] else methods)[nm] = f
                elif m["type"] == "PropertyDefinition":
                    nm = ("#" if m["key"]["type"] == "PrivateIdentifier" else "") + str(m["key"].get("name", m["key"].get("value")))
                    fields.append((nm, m["value"], m["static"]))
                else:
                    raise Abort("class member")
            if any(s for _, _, s in fields):
                raise Abort("static field")
            out.append(("n", self.new(y, O("class", p=statics, x=(e["id"]["name"] if e.get("id") else "", sv, methods, fields, ctor, sc))), y))
        return out

    def e_UnaryExpression(self, e, st, sc):
        op = e["operator"]
        if op == "typeof" and e["argument"]["type"] == "Identifier":
            pass
        if op == "delete":
            out = []
            for c, (b, key), y in self.target(e["argument"], st, sc):
                if c == "n":
                    o = self.obj(y, b)
                    if o is not None and isinstance(key, str):
                        y.w(b[1]).p.pop(key, None)
                    else:
                        self.on_store(b, key, UNDEF, y, e)
                    out.append(("n", TRUE, y))
                else:
                    out.append((c, b, y))
            return out
        out = []
        for c, v, y in self.ex(e["argument"], st, sc):
            if c != "n":
                out.append((c, v, y))
                continue
            if op == "!":
                r = self.neg(self.bool(v))
            elif op == "-":
                r = mul(num(-1), v) or t("neg", v)
            elif op == "+":
                r = v if v[0] == "num" else t("tonum", v)
                try:
                    r = num(float(v[1])) if v[0] == "str" else r
                except ValueError:
                    r = NAN
            elif op == "void":
                r = UNDEF
            elif op == "typeof":
                k = {"str": "string", "num": "number", "bool": "boolean", "undef": "undefined", "null": "object"}.get(v[0])
                o = self.obj(y, v)
                if o is not None:
                    k = "function" if o.k in ("fn", "class") else "object"
                r = S(k) if k else t("typeof", v)
            else:
                r = t(op, self.freeze(v, y))
            out.append(("n", r, y))
        return out

    def e_BinaryExpression(self, e, st, sc):
        out = []
        if e["left"]["type"] == "PrivateIdentifier":
            raise Abort("private in")
        for c, vs, y in self.seq([e["left"], e["right"]], st, sc):
            out.append((c, self.binary(e["operator"], vs[0], vs[1], y) if c == "n" else vs, y))
        return out

    def binary(self, op, a, b, st):
        if op in ("==", "!=", "===", "!=="):
            r = self.equal(a, b, op[:2] + ("=" if len(op) == 3 else ""), st)
            return self.neg(r) if op[0] == "!" else r
        if op == "+":
            if a[0] == "str" or b[0] == "str" or a[:2] == ("t", "cat") or b[:2] == ("t", "cat"):
                return self.cat(self.tostr(a), self.tostr(b))
            if a[0] == "num" or b[0] == "num" or numeric(a) and numeric(b):
                r = add(a, b)
                if r is not None:
                    return r
            return t("+", self.freeze(a, st), self.freeze(b, st))
        if op == "-":
            r = add(a, b, -1)
            return r if r is not None else t("-", self.freeze(a, st), self.freeze(b, st))
        if op == "*":
            r = mul(a, b)
            return r if r is not None else t("*", self.freeze(a, st), self.freeze(b, st))
        ca, cb = const(a), const(b)
        if op in ("<", ">", "<=", ">="):
            if op in (">", "<="):
                a, b = b, a
            d = add(b, a, -1)        # a < b, for < and >;  not (b < a) for <= and >=
            if d is not None:
                r = self.pos(d)
            elif a[0] == "str" and b[0] == "str":
                r = ("bool", a[1] < b[1])
            else:
                r = t("lt", self.freeze(a, st), self.freeze(b, st))
            return r if op in ("<", ">") else self.neg(r)
        if ca is not None and cb is not None:
            try:
                if op == "/" and cb:
                    return num(ca / cb)
                if op == "%" and cb:
                    return num(ca % cb if ca >= 0 else -(-ca % cb))
                if op == "**":
                    return num(ca ** cb)
                if op in ("<<", ">>", "&", "|", "^") and isinstance(ca, int) and isinstance(cb, int):
                    return num({"<<": ca << cb, ">>": ca >> cb, "&": ca & cb, "|": ca | cb, "^": ca ^ cb}[op])
                if op == ">>>" and ca >= 0:
                    return num(ca >> cb)
            except Exception:
                pass
        if op == "<<" and isinstance(cb, int) and 0 <= cb < 31:
            return t("<<", a, b)
        if op == "/" and cb:
            p = aspoly(a)
            if p is not None and all(isinstance(c, int) and isinstance(cb, int) and c % cb == 0 for c in p.values()):
                return norm1({k: c // cb for k, c in p.items()})
        return t(op, self.freeze(a, st), self.freeze(b, st))

    def pos(self, d):
        n = const(d)
        if n is not None:
            return ("bool", n > 0)
        p = aspoly(d)
        return t("pos", d if d[0] == "num" else poly(p))

    def equal(self, a, b, op, st):
        strict = op == "==="
        if a == b:
            if a == NAN:
                return FALSE
            return TRUE
        if a[0] == "spread" or b[0] == "spread":
            return t("eq", a, b)
        ka, kb = a[0], b[0]
        if ka == "ref" and kb == "ref":
            return FALSE
        if ka in ("undef", "null") and kb in ("undef", "null"):
            return ("bool", not strict)
        for x, y in ((a, b), (b, a)):
            if x[0] in ("undef", "null") and (y[0] in ("num", "str", "bool", "ref", "tup", "comp") or numeric(y)):
                return FALSE
            if x[0] == "ref" and (y[0] in ("num", "str", "bool") or numeric(y)):
                return FALSE if strict or y[0] == "bool" else t("eq", *sorted((self.freeze(x, st), y), key=repr))
            if x[0] == "ref" and y[0] == "t" and y[1] not in ("lv", "lv2"):
                return FALSE         # made in this run, so it is not a value from before or outside
            if x[0] == "bool" and numeric(y):
                if strict:
                    return FALSE
                return self.equal(num(int(x[1])), y, op, st)
        if ka in ("num", "bool", "str") and kb in ("num", "bool", "str"):
            if ka == "str" and kb == "str" or ka == "bool" and kb == "bool":
                return ("bool", a[1] == b[1])
            if ka != kb and strict:
                return FALSE
        d = add(a, b, -1) if (ka in ("num", "t") and kb in ("num", "t")) and (ka == "num" or kb == "num") else None
        if d is not None:
            n = const(d)
            if n is not None:
                return ("bool", n == 0)
            if const(a) == 0:
                return t("eq", *sorted((num(0), b), key=repr))
            if const(b) == 0:
                return t("eq", *sorted((num(0), a), key=repr))
        if not strict:
            # == null and == undefined are the same test
            a = UNDEF if a == NULL else a
            b = UNDEF if b == NULL else b
        return t("eq", *sorted((self.freeze(a, st), self.freeze(b, st)), key=repr))

    def neg(self, v):
        if v[0] == "bool":
            return ("bool", not v[1])
        if v[:2] == ("t", "not"):
            return v[2]
        return t("not", v)

    def truth(self, v):
        if v[0] == "bool":
            return v[1]
        if v[0] in ("undef", "null"):
            return False
        if v[0] == "str":
            return v[1] != ""
        if v[0] in ("ref", "tup", "comp"):
            return True
        n = const(v)
        if n is not None:
            return n != 0
        if v == NAN:
            return False
        return None

    def bool(self, v):
        """the truth of a value as a condition"""
        b = self.truth(v)
        if b is not None:
            return ("bool", b)
        if v[0] == "t" and v[1] in ("not", "eq", "pos", "lt", "truthy", "in", "instanceof"):
            return v
        if numeric(v) or v[0] == "num":
            return self.neg(t("eq", *sorted((num(0), v), key=repr)))
        return t("truthy", v)

    def cond(self, v, st):
        """the ways a condition can go: [(bool, state)]"""
        v = self.bool(v)
        if v[0] == "bool":
            return [(v[1], st)]
        flip = False
        if v[:2] == ("t", "not"):
            v, flip = v[2], True
        b = self.known(v, st)
        if b is not None:
            return [(b != flip, st)]
        y, z = st, st.fork()
        y.facts[v] = True
        z.facts[v] = False
        return [(True != flip, y), (False != flip, z)]

    def known(self, v, st):
        if v in st.facts:
            return st.facts[v]
        # a truthy value is defined; an undefined one is falsy
        if v[1] == "eq" and UNDEF in v[2:]:
            x = v[2] if v[3] == UNDEF else v[3]
            if st.facts.get(t("truthy", x)) is True:
                return False
        if v[1] == "truthy" and st.facts.get(t("eq", *sorted((v[2], UNDEF), key=repr))) is True:
            return False
        if v[1] == "eq":
            # equal to another constant
            for x, y in ((v[2], v[3]), (v[3], v[2])):
                if x[0] in ("str", "num") and (x[0] == "str" or const(x) is not None):
                    for k, b in st.facts.items():
                        if b and k[:2] == ("t", "eq") and y in k[2:]:
                            o = k[2] if k[3] == y else k[3]
                            if o[0] == x[0] and o != x and (o[0] == "str" or const(o) is not None):
                                return False
        return None

    def e_LogicalExpression(self, e, st, sc):
        out = []
        op = e["operator"]
        for c, v, y in self.ex(e["left"], st, sc):
            if c != "n":
                out.append((c, v, y))
                continue
            if op == "??":
                if v in (UNDEF, NULL):
                    ways = [(False, y)]
                elif v[0] != "t" or numeric(v):
                    ways = [(True, y)]
                else:
                    ways = [(not b, z) for b, z in self.cond(t("eq", *sorted((self.freeze(v, y), UNDEF), key=repr)), y)]
            else:
                ways = self.cond(v, y)
                if op == "||":
                    pass
                else:
                    ways = [(not b, z) for b, z in ways]
            for keep, z in ways:
                if keep:
                    out.append(("n", v, z))
                else:
                    out += self.ex(e["right"], z, sc)
        return out

    def e_ConditionalExpression(self, e, st, sc):
        out = []
        for c, v, y in self.ex(e["test"], st, sc):
            if c != "n":
                out.append((c, v, y))
                continue
            for b, z in self.cond(v, y):
                out += self.ex(e["consequent" if b else "alternate"], z, sc)
        return out

    def e_SequenceExpression(self, e, st, sc):
        return [(c, v[-1] if c == "n" else v, y) for c, v, y in self.seq(e["expressions"], st, sc)]

    def e_AwaitExpression(self, e, st, sc):
        out = []
        for c, v, y in self.ex(e["argument"], st, sc):
            if c != "n":
                out.append((c, v, y))
            else:
                out += self.awaited(v, y, e)
        return out

    def awaited(self, v, st, node):
        o = self.obj(st, v)
        if o is not None and o.k == "promise":
            r = self.on_await(v, st, node)
            if r is not None:
                return r
            if o.x[0] == "ok":
                return [("n", o.x[1], st)]
            return [("throw", o.x[1], st)]
        r = self.on_await(v, st, node)
        if r is not None:
            return r
        if v[0] == "t":
            return [("n", t("awaited", v), st)]
        return [("n", v, st)]

    def e_AssignmentExpression(self, e, st, sc):
        op = e["operator"]
        if op == "=":
            lhs = e["left"]
            out = []
            if lhs["type"] == "MemberExpression":
                for c, (b, key), y in self.target(lhs, st, sc):
                    if c != "n":
                        out.append((c, b, y))
                        continue
                    for c2, v, z in self.ex(e["right"], y, sc):
                        if c2 != "n":
                            out.append((c2, v, z))
                            continue
                        out += [(c3, v if c3 == "n" else w, x) for c3, w, x in self.store(b, key, v, z, e)]
                return out
            for c, v, y in self.ex(e["right"], st, sc):
                if c != "n":
                    out.append((c, v, y))
                    continue
                out += [(c2, v if c2 == "n" else w, z) for c2, w, z in self.bind(lhs, v, y, sc)]
            return out
        lhs = e["left"]
        out = []
        for c, cur, y, put in self.read_lhs(lhs, st, sc):
            if c != "n":
                out.append((c, cur, y))
                continue
            if op in ("&&=", "||=", "??="):
                if op == "??=":
                    if cur in (UNDEF, NULL):
                        ways = [(True, y)]
                    elif cur[0] != "t":
                        ways = [(False, y)]
                    else:
                        ways = self.cond(t("eq", *sorted((cur, UNDEF), key=repr)), y)
                else:
                    ways = [(b == (op == "&&="), z) for b, z in self.cond(cur, y)]
                for b, z in ways:
                    if not b:
                        out.append(("n", cur, z))
                        continue
                    for c2, v, w in self.ex(e["right"], z, sc):
                        out += [(c3, v if c3 == "n" else q, x) for c3, q, x in put(v, w)] if c2 == "n" else [(c2, v, w)]
                continue
            for c2, v, z in self.ex(e["right"], y, sc):
                if c2 != "n":
                    out.append((c2, v, z))
                    continue
                r = self.binary(op[:-1], cur, v, z)
                out += [(c3, r if c3 == "n" else q, x) for c3, q, x in put(r, z)]
        return out

    def read_lhs(self, lhs, st, sc):
        """[(c, current value, state, setter)]"""
        if lhs["type"] == "Identifier":
            return [(c, v, y, lambda w, z: self.bind(lhs, w, z, sc)) for c, v, y in self.e_Identifier(lhs, st, sc)]
        out = []
        for c, (b, key), y in self.target(lhs, st, sc):
            if c != "n":
                out.append((c, b, y, None))
                continue
            for c2, v, z in self.prop(b, key, y, lhs):
                out.append((c2, v, z, lambda w, q, b=b, key=key: self.store(b, key, w, q, lhs)))
        return out

    def e_UpdateExpression(self, e, st, sc):
        out = []
        for c, v, y, put in self.read_lhs(e["argument"], st, sc):
            if c != "n":
                out.append((c, v, y))
                continue
            r = add(v, num(1), 1 if e["operator"] == "++" else -1)
            if r is None:
                r = t("upd", self.fresh())
            out += [(c2, (r if e["prefix"] else v) if c2 == "n" else q, z) for c2, q, z in put(r, y)]
        return out

    # ---- properties ---------------------------------------------------------------------------------------------------------------------------

    def key(self, v):
        if isinstance(v, str):
            return v
        if v[0] == "str":
            return num(int(v[1])) if v[1].isdigit() else v[1]
        return v

    def target(self, e, st, sc):
        """base and key of a member expression: [(c, (base, key), state)]"""
        out = []
        if e["type"] == "ChainExpression":
            e = e["expression"]
        if e["object"]["type"] == "Super":
            return [("n", (t("super", self.lookup(st, sc, "this")), e["property"]["name"]), st)]
        for c, b, y in self.ex(e["object"], st, sc):
            if c != "n":
                out.append((c, (b, None), y))
                continue
            if e.get("computed"):
                for c2, k, z in self.ex(e["property"], y, sc):
                    out.append((c2, (b, self.key(k)) if c2 == "n" else (k, None), z))
            else:
                nm = e["property"]["name"]
                out.append(("n", (b, "#" + nm if e["property"]["type"] == "PrivateIdentifier" else nm), y))
        return out

    def e_MemberExpression(self, e, st, sc):
        out = []
        for c, (b, key), y in self.target(e, st, sc):
            out += self.member(b, key, y, e) if c == "n" else [(c, b, y)]
        return out

    def member(self, b, key, st, e):
        if e.get("optional"):
            if b in (UNDEF, NULL):
                return [("n", UNDEF, st)]
            if b[0] == "t" and not numeric(b):
                out = []
                for u, z in self.cond(t("eq", *sorted((b, UNDEF), key=repr)), st):
                    out += [("n", UNDEF, z)] if u else self.prop(b, key, z, e)
                return out
        return self.prop(b, key, st, e)

    def e_ChainExpression(self, e, st, sc):
        return self.ex(e["expression"], st, sc)

    def prop(self, b, key, st, node):
        """a property of a value"""
        if isinstance(key, tuple) and key[0] == "str":
            key = self.key(key)
        o = self.obj(st, b)
        if o is not None:
            if o.k == "arr":
                if key == "length":
                    if o.el is not None:
                        return [("n", num(len(o.el)), st)]
                    return [("n", index_value(o.x, "length"), st)]
                if isinstance(key, tuple):
                    n = const(key)
                    if o.el is not None and n is not None:
                        return [("n", o.el[n] if 0 <= n < len(o.el) else UNDEF, st)]
                    if o.el is None:
                        return [("n", index_value(o.x, key), st)]
                    return [("n", t("elem", self.freeze(b, st), key), st)]
                if key in o.p:
                    return [("n", o.p[key], st)]
                return [("n", t("method", b, key), st)]
            if o.k == "view":
                if isinstance(key, tuple):
                    v = self.on_view(o, key, None, st, node)
                    return [("n", v if v is not None else t("elem", b, key), st)]
                if key == "length":
                    return [("n", o.x["len"], st)] if o.x.get("len") is not None else [("n", get(b, key), st)]
                if key == "buffer" and "buf" in o.x:
                    return [("n", o.x["buf"], st)]
                return [("n", t("method", b, key), st)]
            if isinstance(key, tuple):
                n = const(key)
                key = str(n) if n is not None else key
            if isinstance(key, str):
                if key in o.p:
                    return [("n", o.p[key], st)]
                if o.k == "inst":
                    m = self.method_of(st, o.x, key)
                    return [("n", m if m is not None else t("method", b, key), st)]
                if o.k in ("fn", "promise", "class", "ext"):
                    return [("n", t("method", b, key), st)]
                if o.k == "obj":
                    if "..." in o.p:
                        return [("n", get(o.p["..."], key), st)]
                    if key in ("hasOwnProperty", "toString"):
                        return [("n", t("method", b, key), st)]
                    return [("n", UNDEF, st)]
            if o.k == "obj":
                # one of its properties, or none
                out = []
                z = st
                for k2, v2 in o.p.items():
                    ways = self.cond(self.equal(key, S(k2), "===", z), z)
                    nz = None
                    for bb, y in ways:
                        if bb:
                            out.append(("n", v2, y))
                        else:
                            nz = y
                    if nz is None:
                        return out
                    z = nz
                return out + [("n", UNDEF, z)]
            return [("n", t("elem", b, key), st)]
        if b in (UNDEF, NULL):
            return [("throw", t("TypeError"), st)]
        if b[0] == "str":
            if key == "length":
                return [("n", num(len(b[1])), st)]
            n = const(key) if isinstance(key, tuple) else None
            if n is not None:
                return [("n", S(b[1][n]) if 0 <= n < len(b[1]) else UNDEF, st)]
            return [("n", t("method", b, key) if isinstance(key, str) else get(b, key), st)]
        if b[0] in ("tup", "comp"):
            if isinstance(key, str) and key != "length":
                return [("n", t("method", b, key), st)]
            return [("n", index_value(b, key), st)]
        e = get(b, key)
        if e in st.ext:
            return [("n", st.ext[e], st)]
        return [("n", e, st)]

    def method_of(self, st, cls, name):
        while cls is not None and cls[0] == "ref":
            nm, sup, methods, fields, ctor, sc = st.heap[cls[1]].x
            if name in methods:
                return methods[name]
            cls = sup
        return None

    def store(self, b, key, v, st, node):
        o = self.obj(st, b)
        if isinstance(key, tuple) and key[0] == "str":
            key = self.key(key)
        if o is not None:
            if o.k == "view":
                self.on_view(o, key, v, st, node)
            elif o.k == "arr":
                n = const(key) if isinstance(key, tuple) else None
                q = st.w(b[1])
                if isinstance(key, str) and key != "length":
                    q.p[key] = v
                elif q.el is not None and n is not None and 0 <= n < len(q.el):
                    q.el[n] = v
                elif q.el is not None and n == len(q.el) or q.el is not None and isinstance(key, tuple) and key == num(len(q.el)):
                    q.el.append(v)
                elif key == "length" and const(v) == 0:
                    q.el, q.x = [], None
                else:
                    q.el, q.x = None, t("stored", self.fresh())
            elif isinstance(key, str):
                st.w(b[1]).p[key] = v
            elif isinstance(key, tuple) and const(key) is not None:
                st.w(b[1]).p[str(const(key))] = v
            else:
                raise Abort("store to an unknown property")
            return [("n", None, st)]
        if b in (UNDEF, NULL):
            return [("throw", t("TypeError"), st)]
        st.ext[get(b, key)] = v
        self.on_store(b, key, v, st, node)
        return [("n", None, st)]

    def freeze(self, v, st, d=0):
        """a value without references where possible"""
        o = self.obj(st, v)
        if o is None or d > 5:
            return v
        if o.k == "arr":
            if o.el is not None:
                return ("tup", tuple(self.freeze(x, st, d + 1) for x in o.el))
            return o.x
        if o.k == "promise" and o.x[0] == "ok":
            return v
        return v

    # ---- calls --------------------------------------------------------------------------------------------------------------------------------

    def e_CallExpression(self, e, st, sc):
        out = []
        cal = e["callee"]
        if cal["type"] == "ChainExpression":
            cal = cal["expression"]
        if cal["type"] == "Super":
            for c, vs, y in self.seq(e["arguments"], st, sc):
                out.append((c, UNDEF if c == "n" else vs, y))
            return out
        if cal["type"] == "MemberExpression":
            heads = []
            for c, (b, key), y in self.target(cal, st, sc):
                if c != "n":
                    out.append((c, b, y))
                    continue
                for c2, f, z in self.member(b, key, y, cal):
                    if c2 != "n":
                        out.append((c2, f, z))
                    elif cal.get("optional") and f == UNDEF:
                        out.append(("n", UNDEF, z))
                    else:
                        heads.append((f, b, key, z))
        else:
            heads = []
            for c, f, y in self.ex(cal, st, sc):
                if c != "n":
                    out.append((c, f, y))
                else:
                    heads.append((f, None, None, y))
        for f, b, key, y in heads:
            if e.get("optional"):
                if f in (UNDEF, NULL):
                    out.append(("n", UNDEF, y))
                    continue
            for c, vs, z in self.seq(e["arguments"], y, sc):
                if c != "n":
                    out.append((c, vs, z))
                    continue
                out += self.call(f, b, key, vs, z, e)
        if len(out) > BIG:
            raise Abort("too many paths")
        return out

    def call(self, f, this, key, args, st, node):
        o = self.obj(st, f)
        if o is not None and o.k == "fn":
            return self.invoke(f, this, args, st, node)
        if o is not None and o.k == "resolver":
            self.on_resolve(st, o.x)
            return [("n", UNDEF, st)]
        if f in (UNDEF, NULL):
            return [("throw", t("TypeError"), st)]
        if f[0] == "t" and f[1] == "method":
            r = self.method(f[2], f[3], args, st, node)
            if r is not None:
                return r
        r = self.ext_call(f, this, args, st, node)
        if r is not None:
            return r
        r = self.builtin(f, this, args, st, node)
        if r is not None:
            return r
        if f[:2] == ("t", "get"):
            r = self.term_method(f[2], f[3], args, st, node)
            if r is not None:
                return r
        return self.unknown_call(f, args, st, node)

    def unknown_call(self, f, args, st, node):
        st.outside()
        fz = tuple(self.freeze(a, st) for a in args)
        if self.keepcalls:
            st.ev("call", f, fz)
        for a in args:
            o = self.obj(st, a)
            if o is not None and o.k == "view":
                self.on_view(o, "*", None, st, node)
        return [("n", t("call", f, fz, self.fresh()), st)]

    PURE = {"parseInt", "parseFloat", "Number", "String", "Boolean", "isNaN", "isFinite"}

    def builtin(self, f, this, args, st, node):
        if f[:2] == ("t", "g") and f[2] in self.PURE:
            fz = tuple(self.freeze(a, st) for a in args)
            if f[2] == "parseInt" and fz and const(fz[0]) is not None:
                return [("n", num(int(const(fz[0]))), st)]
            if f[2] == "Boolean" and len(args) == 1:
                return [("n", self.bool(args[0]), st)]
            if f[2] == "Number" and args and (args[0][0] == "num" or numeric(args[0])):
                return [("n", args[0], st)]
            if f[2] == "String" and args:
                return [("n", self.tostr(fz[0]), st)]
            return [("n", t("pure", f[2], *fz), st)]
        if f[:2] == ("t", "get") and f[2] == ("t", "g", "Math"):
            fz = tuple(self.freeze(a, st) for a in args)
            cs = [const(a) for a in fz]
            if f[3] in ("max", "min") and cs and None not in cs:
                return [("n", num((max if f[3] == "max" else min)(cs)), st)]
            if f[3] in ("floor", "round", "ceil", "trunc") and isinstance(cs[0], int):
                return [("n", num(cs[0]), st)]
            return [("n", t("pure", "Math." + str(f[3]), *fz), st)]
        if f[:2] == ("t", "get") and f[2] == ("t", "g", "console"):
            for a in args:
                o = self.obj(st, a)
                if o is not None and o.k == "view":
                    self.on_view(o, "*", None, st, node)
            return [("n", UNDEF, st)]
        if f[:2] == ("t", "get") and f[2] == ("t", "g", "Promise"):
            if f[3] == "resolve":
                v = args[0] if args else UNDEF
                o = self.obj(st, v)
                return [("n", v if o is not None and o.k == "promise" else self.new(st, O("promise", x=("ok", v))), st)]
            if f[3] == "reject":
                return [("n", self.new(st, O("promise", x=("err", args[0] if args else UNDEF))), st)]
            if f[3] == "all":
                o = self.obj(st, args[0])
                if o is not None and o.k == "arr" and o.el is not None:
                    live, out = [([], st)], []
                    for p in o.el:
                        nxt = []
                        for vs, x in live:
                            for c, v, y in self.awaited(p, x, node):
                                if c == "n":
                                    nxt.append((vs + [v], y))
                                else:
                                    out.append(("n", self.new(y, O("promise", x=("err", v))), y))
                        live = nxt
                    for vs, x in live:
                        out.append(("n", self.new(x, O("promise", x=("ok", self.arr(x, vs)))), x))
                    return out
        if f[:2] == ("t", "get") and f[2] == ("t", "g", "Array"):
            if f[3] == "isArray":
                o = self.obj(st, args[0])
                if o is not None:
                    return [("n", ("bool", o.k == "arr"), st)]
            if f[3] == "of":
                return [("n", self.arr(st, args), st)]
            if f[3] == "from" and args:
                o = self.obj(st, args[0])
                if o is not None and o.k == "obj" and "length" in o.p and len(args) == 2:
                    return self.map_count(o.p["length"], lambda x, i: self.call(args[1], None, None, [UNDEF, i], x, node), st, node)
                if len(args) == 2:
                    return self.map_value(args[0], args[1], st, node)
                if o is not None and o.k == "arr":
                    return [("n", self.new(st, o.copy()), st)]
                if o is not None and o.k == "view":
                    return self.map_value(args[0], None, st, node)
                return [("n", self.new(st, O("arr", el=None, x=self.freeze(args[0], st))), st)]
        if f[:2] == ("t", "get") and f[2] == ("t", "g", "Object") and args:
            o = self.obj(st, args[0])
            if f[3] == "freeze":
                return [("n", args[0], st)]
            if o is not None and o.k == "obj":
                if f[3] == "keys":
                    return [("n", self.arr(st, [S(k) for k in o.p]), st)]
                if f[3] == "values":
                    return [("n", self.arr(st, list(o.p.values())), st)]
                if f[3] == "entries":
                    return [("n", self.arr(st, [self.arr(st, [S(k), v]) for k, v in o.p.items()]), st)]
        return None

    def map_count(self, n, body, st, node):
        """an array of n elements, element i being body(i)"""
        a = self.arr(st, [])

        def go(x, i):
            out = []
            for c, v, y in body(x, i):
                if c == "n":
                    y.w(a[1]).el.append(v)
                    out.append(("n", None, y))
                else:
                    out.append((c, v, y))
            return out
        return [(c, a if c == "n" else v, y) for c, v, y in self.for_each(node, st, n, go)]

    def map_value(self, v, f, st, node):
        a = self.arr(st, [])

        def go(x, el, i):
            out = []
            for c, w, y in (self.call(f, None, None, [el, i, v], x, node) if f is not None else [("n", el, x)]):
                if c == "n":
                    o = y.heap[a[1]]
                    if o.el is None:
                        raise Abort("map over a mixed array")
                    y.w(a[1]).el.append(w)
                    out.append(("n", None, y))
                else:
                    out.append((c, w, y))
            return out
        return [(c, a if c == "n" else w, y) for c, w, y in self.over(node, v, st, go)]

    def method(self, b, key, args, st, node):
        """methods of the module's own objects"""
        o = self.obj(st, b)
        if key == "at" and len(args) == 1 and o is not None and o.k in ("arr", "view"):
            n = const(args[0])
            if isinstance(n, int) and n < 0 and o.k == "arr" and o.el is not None and -n <= len(o.el):
                return [("n", o.el[n], st)]
            if isinstance(n, int) and n >= 0 or args[0][:2] == ("t", "it"):
                return self.prop(b, args[0], st, node)
        if o is None:
            return self.term_method(b, key, args, st, node)
        if o.k == "fn":
            if key == "call":
                return self.call(b, args[0] if args else UNDEF, None, args[1:], st, node)
            if key == "apply":
                a = self.obj(st, args[1]) if len(args) > 1 else None
                if a is not None and a.k == "arr" and a.el is not None:
                    return self.call(b, args[0], None, list(a.el), st, node)
            if key == "bind" and len(args) == 1:
                return [("n", self.new(st, O("fn", x=(o.x[0], o.x[1], args[0]))), st)]
            return None
        if o.k == "promise" or o.k == "ext" and key in ("then", "catch", "finally"):
            return self.then(b, key, args, st, node)
        if o.k == "arr":
            if key == "push":
                q = st.w(b[1])
                if q.el is None:
                    q.x = t("grown", self.fresh())
                else:
                    q.el.extend(args)
                return [("n", t("len", self.fresh()), st)]
            if key == "pop" and o.el:
                q = st.w(b[1])
                return [("n", q.el.pop(), st)]
            if key in ("forEach", "map", "flatMap"):
                if key == "map":
                    return self.map_value(b, args[0], st, node)
                if key == "forEach":
                    return [(c, UNDEF if c == "n" else v, y) for c, v, y in self.over(
                        node, b, st, lambda x, el, i: [(c2, None if c2 == "n" else v2, z) for c2, v2, z in self.call(args[0], None, None, [el, i, b], x, node)])]
            if key == "entries" and not args:
                if o.el is not None:
                    return [("n", self.arr(st, [self.arr(st, [num(i), v]) for i, v in enumerate(o.el)]), st)]
                r = []
                for c, n, y in self.prop(b, "length", st, node):
                    r += self.map_count(n, lambda x, i: [("n", self.arr(x, [i, self.prop(b, i, x, node)[0][1]]), x)], y, node)
                return r
            if key == "values" or key == "flat" and o.el is not None and not any(self.obj(st, v) and self.obj(st, v).k == "arr" for v in o.el):
                return [("n", b, st)]
            if key == "slice" and not args:
                return [("n", self.new(st, o.copy()), st)]
            if key == "concat" and o.el is not None:
                el = list(o.el)
                for a in args:
                    q = self.obj(st, a)
                    if q is not None and q.k == "arr":
                        if q.el is None:
                            return None
                        el += q.el
                    else:
                        el.append(a)
                return [("n", self.arr(st, el), st)]
            if key == "join" and o.el is not None and len(args) <= 1 and (not args or args[0][0] == "str"):
                s = args[0] if args else S(",")
                r = S("")
                for i, v in enumerate(o.el):
                    r = self.cat(self.cat(r, s if i else S("")), self.tostr(v))
                return [("n", r, st)]
            if key == "join" and o.el is None and o.x[0] == "comp" and args and args[0] == S(""):
                return [("n", t("joined", o.x), st)]
            if key == "includes" and o.el is not None and args:
                c = [self.equal(v, args[0], "===", st) for v in o.el]
                if all(x[0] == "bool" for x in c):
                    return [("n", ("bool", any(x[1] for x in c)), st)]
            if key in ("every", "some", "find", "findIndex", "filter", "reduce", "indexOf", "includes", "slice", "keys", "flat", "join", "at"):
                return [("n", t("pure", key, self.freeze(b, st), *[self.freeze(a, st) for a in args]), st)]
            return None
        if o.k == "view":
            return self.view_method(b, o, key, args, st, node)
        if o.k == "inst" and self.method_of(st, o.x, key) is None:
            return self.ext_call(t("inherited", b, key), b, args, st, node)
        return None

    def view_method(self, b, o, key, args, st, node):
        if key == "set" and args:
            src = args[0]
            off = args[1] if len(args) > 1 else num(0)
            out = []

            def go(x, el, i):
                self.on_view(o, add(off, i), el, x, node)
                return [("n", None, x)]
            for c, v, y in self.over(node, src, st, go):
                out.append((c, UNDEF if c == "n" else v, y))
            return out
        if key in ("forEach", "map", "entries", "values"):
            if key == "forEach":
                return [(c, UNDEF if c == "n" else v, y) for c, v, y in self.over(
                    node, b, st, lambda x, el, i: [(c2, None if c2 == "n" else v2, z) for c2, v2, z in self.call(args[0], None, None, [el, i, b], x, node)])]
        if key == "fill" and args:
            n = o.x.get("len")
            lo = args[1] if len(args) > 1 else num(0)
            hi = args[2] if len(args) > 2 else n
            n = add(hi, lo, -1) if hi is not None else None
            if n is not None:
                out = []
                for c, v, y in self.for_each(node, st, n, lambda x, i: (self.on_view(o, add(lo, i), args[0], x, node), [("n", None, x)])[1]):
                    out.append((c, b if c == "n" else v, y))
                return out
        if key == "slice" and len(args) <= 2:
            # a copy
            lo = args[0] if args else num(0)
            hi = args[1] if len(args) > 1 else o.x.get("len")
            if hi is None:
                return None
            n = add(hi, lo, -1)
            r = []
            for c, a, y in self.map_count(n, lambda x, i: self.prop(b, add(lo, i), x, node), st, node):
                if c == "n":
                    q = y.heap[a[1]]
                    a = self.new(y, O("view", x={"kind": "js", "len": n, "off": num(0), "from": self.freeze(a, y), "ctor": o.x.get("ctor")}))
                r.append((c, a, y))
            return r
        if key == "subarray" and o.x.get("len") is not None:
            lo = args[0] if args else num(0)
            hi = args[1] if len(args) > 1 else o.x["len"]
            x = dict(o.x)
            x["off"] = add(x.get("off", num(0)), lo)
            x["len"] = add(hi, lo, -1)
            x["base"] = o.x.get("base", b[1])
            return [("n", self.new(st, O("view", x=x)), st)]
        self.on_view(o, "*", None, st, node)
        return [("n", t("call", t("method", b, key), tuple(self.freeze(a, st) for a in args), self.fresh()), st)]

    STRPURE = {"includes", "indexOf", "startsWith", "endsWith", "charAt", "charCodeAt", "slice", "substring", "substr", "toLowerCase", "toUpperCase",
               "trim", "padStart", "padEnd", "toString", "split", "match", "matchAll", "replace", "replaceAll", "test", "repeat", "concat", "at", "toFixed",
               "codePointAt", "localeCompare", "lastIndexOf", "search", "join"}

    def term_method(self, b, key, args, st, node):
        """methods of unknown values"""
        if key == "at" and len(args) == 1 and (frozen_path(b) or b[0] in ("tup", "comp")) and (isinstance(const(args[0]), int) and const(args[0]) >= 0 or
                                                                                          args[0][:2] == ("t", "it")):
            return self.prop(b, args[0], st, node)
        if key in ("then", "catch", "finally") and b[0] == "t":
            return self.then(b, key, args, st, node)
        if key in ("map", "forEach") and args and self.obj(st, args[0]) is not None and self.obj(st, args[0]).k == "fn":
            if key == "map":
                return self.map_value(b, args[0], st, node)
            return [(c, UNDEF if c == "n" else v, y) for c, v, y in self.over(
                node, b, st, lambda x, el, i: [(c2, None if c2 == "n" else v2, z) for c2, v2, z in self.call(args[0], None, None, [el, i, b], x, node)])]
        if key == "entries" and not args and (b[0] in ("tup", "comp") or frozen_path(b)):
            r = []
            for c, n, y in self.prop(b, "length", st, node):
                r += self.map_count(n, lambda x, i: [("n", self.arr(x, [i, self.prop(b, i, x, node)[0][1]]), x)], y, node)
            return r
        if key == "flat" and b[0] == "comp" and b[3][0] == "tup":
            return [("n", ("flat", b), st)]
        if b[0] == "str" and args and all(a[0] == "str" for a in args):
            s, a0 = b[1], args[0][1]
            if key == "includes":
                return [("n", ("bool", a0 in s), st)]
            if key == "startsWith":
                return [("n", ("bool", s.startswith(a0)), st)]
        if key == "concat" and (b[0] == "str" or b[:2] == ("t", "cat")):
            r = b
            for a in args:
                r = self.cat(r, self.tostr(a))
            return [("n", r, st)]
        if key in self.STRPURE:
            return [("n", t("pure", key, self.freeze(b, st), *[self.freeze(a, st) for a in args]), st)]
        return None

    def then(self, p, key, args, st, node):
        """p.then(f, g), p.catch(g), p.finally(f): the continuations, run in their order"""
        on_ok = args[0] if key == "then" and args else None
        on_err = args[1] if key == "then" and len(args) > 1 else args[0] if key == "catch" and args else None
        fin = args[0] if key == "finally" and args else None
        out = []
        for c, v, y in self.awaited(p, st, node):
            f = on_ok if c == "n" else on_err
            if fin is not None and fin != UNDEF:
                for c2, w, z in self.call(fin, None, None, [], y, node):
                    for c3, w3, q in (self.awaited(w, z, node) if c2 == "n" else [(c2, w, z)]):
                        res = ("ok", v) if c == "n" else ("err", v)
                        out.append(("n", self.new(q, O("promise", x=(res if c3 == "n" else ("err", w3)) + (True,))), q))
                continue
            if f is None or self.truth(f) is not True and self.obj(y, f) is None and f in (UNDEF, NULL):
                out.append(("n", self.new(y, O("promise", x=("ok" if c == "n" else "err", v, True))), y))
                continue
            for c2, w, z in self.call(f, None, None, [v], y, node):
                if c2 != "n":
                    out.append(("n", self.new(z, O("promise", x=("err", w, True))), z))
                    continue
                o = self.obj(z, w)
                if o is not None and o.k == "promise":
                    out.append(("n", w, z))
                else:
                    out.append(("n", self.new(z, O("promise", x=("ok", w, True))), z))
        return out

    def invoke(self, f, this, args, st, node):
        fn, sc, bound = self.obj(st, f).x
        if self.depth > 24:
            raise Abort("calls nested too deeply")
        if fn.get("generator"):
            raise Abort("generator")
        self.fn_seen.add(fn["id"]["name"] if fn.get("id") else "function at line %s" % fn["loc"])
        self.depth += 1
        before = (dict(st.ts), st.log)
        try:
            sc2 = self.scope(st, sc)
            if fn["type"] != "ArrowFunctionExpression":
                st.w(sc2).p["this"] = bound if bound is not None else this if this is not None else UNDEF
                st.w(sc2).p["arguments"] = self.arr(st, args) if uses_arguments(fn) else UNDEF
            live, out = [st], []
            for i, p in enumerate(fn["params"]):
                nxt = []
                for x in live:
                    if p["type"] == "RestElement":
                        r = self.bind(p["argument"], self.arr(x, args[i:]), x, sc2, decl="let")
                    else:
                        r = self.bind(p, args[i] if i < len(args) else UNDEF, x, sc2, decl="let")
                    for c, v, y in r:
                        if c == "n":
                            nxt.append(y)
                        else:
                            out.append((c, v, y))
                live = nxt
            for x in live:
                if fn["body"]["type"] == "BlockStatement":
                    for c, v, y in self.block(fn["body"]["body"], x, self.scope(x, sc2)):
                        out.append(("n", UNDEF, y) if c == "n" else ("n", v, y) if c == "ret" else (c, v, y))
                else:
                    out += self.ex(fn["body"], x, sc2)
        finally:
            self.depth -= 1
        if fn.get("async"):
            r = []
            for c, v, y in out:
                o = self.obj(y, v) if v is not None else None
                if c == "n" and o is not None and o.k == "promise":
                    r.append(("n", v, y))
                elif c == "n" and v[0] == "t" and v[1] in ("call", "request"):
                    r += [("n", self.new(z, O("promise", x=("ok" if c2 == "n" else "err", w))), z) for c2, w, z in self.awaited(v, y, node)]
                else:
                    r.append(("n", self.new(y, O("promise", x=("ok" if c == "n" else "err", v, True))), y))
            for c, v, y in r:
                if c == "n":
                    self.on_async(before, y, v)
            return r
        return out

    def e_NewExpression(self, e, st, sc):
        out = []
        for c, vs, y in self.seq([e["callee"]] + e["arguments"], st, sc):
            if c != "n":
                out.append((c, vs, y))
                continue
            f, args = vs[0], vs[1:]
            o = self.obj(y, f)
            if o is not None and o.k == "class":
                out += self.construct(f, args, y, e)
                continue
            r = self.ext_new(f, args, y, e)
            if r is not None:
                out += r
                continue
            if f == ("t", "g", "Error") or f == ("t", "g", "TypeError") or f == ("t", "g", "RangeError"):
                out.append(("n", t("error", *[self.freeze(a, y) for a in args]), y))
                continue
            if f == ("t", "g", "Array") and len(args) == 1:
                out.append(("n", self.new(y, O("arr", el=None, x=t("holes", args[0]))), y))
                continue
            if f[:2] == ("t", "g") and f[2] in ("Map", "Set", "WeakMap"):
                out.append(("n", t("new", f, tuple(self.freeze(a, y) for a in args), self.fresh()), y))
                continue
            if f == ("t", "g", "Promise") and args and self.obj(y, args[0]) is not None:
                pid = self.fresh()
                res = self.new(y, O("resolver", x=pid))
                for c2, w, z in self.call(args[0], None, None, [res, res], y, e):
                    out.append(("n", t("new", f, (), pid), z))
                continue
            for a in args:
                q = self.obj(y, a)
                if q is not None and q.k == "view":
                    self.on_view(q, "*", None, y, e)
            if self.keepcalls:
                y.ev("new", f, tuple(self.freeze(a, y) for a in args))
            out.append(("n", t("new", f, tuple(self.freeze(a, y) for a in args), self.fresh()), y))
        return out

    def construct(self, f, args, st, node):
        i = self.new(st, O("inst", x=f))
        chain, cls = [], f
        while cls is not None and cls[0] == "ref":
            chain.append(cls)
            cls = st.heap[cls[1]].x[1]
        live, out = [st], []
        for cls in reversed(chain):
            nm, sup, methods, fields, ctor, sc = st.heap[cls[1]].x
            for name, init, _ in fields:
                nxt = []
                for x in live:
                    sc2 = self.scope(x, sc)
                    x.w(sc2).p["this"] = i
                    for c, v, y in (self.ex(init, x, sc2) if init else [("n", UNDEF, x)]):
                        if c == "n":
                            y.w(i[1]).p[name] = v
                            nxt.append(y)
                        else:
                            out.append((c, v, y))
                live = nxt
            if ctor is not None and cls == chain[0]:
                nxt = []
                for x in live:
                    for c, v, y in self.invoke(ctor, i, args, x, node):
                        if c == "n":
                            nxt.append(y)
                        else:
                            out.append((c, v, y))
                live = nxt
        return out + [("n", i, x) for x in live]


def numeric(v):
    """known to be a number"""
    if v[0] == "num":
        return True
    if v[0] == "t":
        if v[1] in ("lib", "cnt", "it", "len", "-", "*", "/", "%", "**", "<<", ">>", "&", "|", "neg", "tonum"):
            return True
        if v[1] == "pure" and (v[2] in ("parseInt", "parseFloat", "Number", "indexOf", "charCodeAt") or str(v[2]).startswith("Math.")):
            return True
        if v[1] == "get" and v[3] == "length":
            return True
    return False


def pattern_names(p):
    k = p["type"]
    if k == "Identifier":
        return [p["name"]]
    if k == "AssignmentPattern":
        return pattern_names(p["left"])
    if k == "RestElement":
        return pattern_names(p["argument"])
    if k == "ArrayPattern":
        return [n for e in p["elements"] if e for n in pattern_names(e)]
    if k == "ObjectPattern":
        return [n for e in p["properties"] for n in pattern_names(e["value"] if e["type"] == "Property" else e["argument"])]
    return []


def walk(n, into_fn=True):
    yield n
    for v in n.values():
        for c in v if isinstance(v, list) else [v]:
            if isinstance(c, dict) and "type" in c:
                if not into_fn and c["type"] in ("FunctionDeclaration", "FunctionExpression", "ArrowFunctionExpression"):
                    continue
                yield from walk(c, into_fn)


def var_names(body):
    out = []
    for s in body:
        for n in walk(s, False):
            if n["type"] == "VariableDeclaration" and n["kind"] == "var":
                for d in n["declarations"]:
                    out += pattern_names(d["id"])
        if s["type"] in ("FunctionDeclaration",):
            continue
    return out


def uses_arguments(fn):
    return any(n["type"] == "Identifier" and n["name"] == "arguments" for n in walk(fn["body"]))


def show(v, st=None, d=0):
    """a readable form of a value"""
    if not isinstance(v, tuple) or not v:
        return str(v)
    k = v[0]
    if d > 8:
        return "…"
    if k == "num":
        if not v[1]:
            return "0"
        return " + ".join(("%s" % c if not m else "*".join(([] if c == 1 else [str(c)]) + [show(a, st, d + 1) for a in m])) for m, c in v[1])
    if k == "str":
        return repr(v[1])
    if k == "bool":
        return "true" if v[1] else "false"
    if k in ("undef", "null"):
        return "undefined" if k == "undef" else "null"
    if k == "tup":
        return "[%s]" % ", ".join(show(x, st, d + 1) for x in v[1])
    if k == "comp":
        return "[%s for %s < %s]" % (show(v[3], st, d + 1), show(v[1]), show(v[2], st, d + 1))
    if k == "t":
        op = v[1]
        if op == "get":
            return "%s.%s" % (show(v[2], st, d + 1), v[3]) if isinstance(v[3], str) else "%s[%s]" % (show(v[2], st, d + 1), show(v[3], st, d + 1))
        if op in ("g", "init"):
            return str(v[2])
        if op == "it":
            return "i%d" % v[2]
        if op == "not":
            return "not " + show(v[2], st, d + 1)
        if op in ("eq", "+", "-", "*", "/"):
            return "(%s %s %s)" % (show(v[2], st, d + 1), "==" if op == "eq" else op, show(v[3], st, d + 1))
        if op == "call":
            return "%s(%s)" % (show(v[2], st, d + 1), ", ".join(show(x, st, d + 1) for x in v[3]))
        return "%s(%s)" % (op, ", ".join(show(x, st, d + 1) if isinstance(x, tuple) else str(x) for x in v[2:]))
    return str(v)
