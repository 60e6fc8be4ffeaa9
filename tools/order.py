"""Dependence of values on the iteration order of hash maps.

dep(t) is the set of bound positions through which t depends on the order ("G": the value itself depends on it). mkey(m, i)
and mval(m, i) are the i-th key and value of a map; for a hash map the numbering is arbitrary."""
from terms import *
from canon import binder, rewrite
from eng import EMPTY

FREE = {"ex", "exm", "isum", "imax", "imin", "mset"}      # the value does not depend on the order of what they range over


def hashmaps(t):
    return [x for x in leaves(t) if x.op == "agg" and x.a[0] in ("HashMap", "HashSet")] if t.op in ("ite", "agg") else []


def base(m):
    """the map log at the bottom of updates"""
    n = 0
    while m.op in ("wrs", "mset", "upd", "updi", "vr") and n < 50:
        m = m.a[0]
        n += 1
    return m


NAMES = {"rep": "a sequence", "fsum": "a floating-point sum", "firstm": "a search", "fold": "a loop", "minm": "a minimum"}
FB = {}
NOBV = frozenset()


def exact(t):
    """a floating-point sum of integers"""
    b = t.a[-1]
    return b.op == "cast" and b.a[0] in ("usize", "u64", "u32", "u16", "u8", "i32", "i64", "isize")


class Order:
    def __init__(self):
        self.memo = {}
        self.why = {}       # ordered operation -> reason
        self.maps = set()
        self.sorts = {}     # sorted term -> (True/False/None, reason)

    def fbv(self, t):
        """bound variables that occur free in t"""
        r = FB.get(t)
        if r is not None:
            return r
        if not t.bh:
            return NOBV
        if t.op == "bv":
            r = frozenset([t])
        else:
            n = binder(t)
            s = set()
            for y in t.a[1 + n if n else 0:]:
                if type(y) is T and y.bh:
                    s |= self.fbv(y)
            r = frozenset(s - set(t.a[1:1 + n])) if n else frozenset(s)
        FB[t] = r
        return r

    def dep(self, t):
        r = self.memo.get(t)
        if r is None:
            self.memo[t] = frozenset()
            r = self.memo[t] = frozenset(self.go(t))
        return r

    def all(self, xs):
        r = set()
        for x in xs:
            if type(x) is T:
                r |= self.dep(x)
        return r

    def go(self, t):
        o, a = t.op, t.a
        if o == "bv":
            return {("p", t)}
        if o in ("mkey", "mval", "mpos", "elem") and len(a) >= 2 and type(a[0]) is T:
            m = base(a[0])
            h = hashmaps(m) or (m.op not in ("agg", "ite") and o != "elem" and [m])
            if not h:
                return self.dep(a[1]) | self.mapdep(a[0])
            if m.op == "agg":
                self.maps.add(m)
            r = set(self.mapdep(a[0]))
            if a[1].op == "bv":
                return r | {a[1]}
            b = self.fbv(a[1])
            if not b:
                self.why.setdefault(t, "one element of a hash map is taken by its position")
                return r | {"G"}
            return r | self.dep(a[1]) | b
        if o == "mlen":
            return self.mapdep(a[0]) - self.fbv(a[0]) if a[0].op == "fold" else ()
        if o == "sorted":
            return self.sort(t)
        n = binder(t)
        if n:
            ks = set(a[1:1 + n])
            inner = self.all(a[1 + n:])
            hit = inner & ks
            if hit:
                both = [k for k in hit if ("p", k) in inner]
                if both:
                    inner = inner | {"G"}
                    self.why.setdefault(t, "entries of a hash map are numbered in iteration order")
                elif o in FREE or o == "fsum" and exact(t) or o == "fold" and self.keyed(t):
                    pass
                else:
                    inner = inner | {"G"}
                    self.why.setdefault(t, "%s over the entries of a hash map in iteration order" % NAMES.get(o, o))
            return inner - ks - {("p", k) for k in ks}
        if o == "agg" and a[0] in ("HashMap", "HashSet"):
            return self.mapdep(t)
        return self.all(a)

    def mapdep(self, m):
        """how the contents of a map depend on an order: plain insertions under distinct keys do not"""
        m = base(m)
        if m.op == "agg" and m.a[0] in ("HashMap", "HashSet", "BTree") and len(m.a) > 2:
            s = m.a[2]
            if s.op == "seq":
                r = set()
                for x in s.a:
                    if x.op == "rep" and all(y.op == "one" and y.a[1].op in ("orins", "agg") for y in x.a[3:]):
                        inner = self.all(x.a[2:])
                        k = x.a[1]
                        bad = False
                        if k in inner:
                            # insertions in hash order: keep the first/last of equal keys
                            for y in x.a[3:]:
                                e = y.a[1]
                                key = e.a[0] if e.op == "orins" else e.a[2]
                                if key.op != "mkey":
                                    bad = True
                        r |= (inner - {k, ("p", k)}) | ({"G"} if bad else set())
                    else:
                        r |= self.dep(x)
                return r
            return self.dep(s)
        return self.dep(m) if m.op not in ("agg",) else self.all(m.a)

    def keyed(self, t):
        """a loop over a map's entries that only changes the entry it is at"""
        k, m = t.a[1], t.a[2]
        body = t.a[5] if len(t.a) > 5 else None
        if body is None or body.op != "seq" or body.a[0] is not m:
            return False
        for x in body.a[1:]:
            e = x.a[1] if x.op == "one" else None
            if e is None or e.op != "modify":
                return False
            n = e.a[0]
            key = e.a[1 + n]
            if not (key.op == "mkey" and key.a[1] is k):
                return False
            if m in self.fbv(mk("z", *[y for y in e.a[2 + n:]])):
                # uses the state of the loop: only the same entry is fine
                own = [q for y in e.a[2 + n:] for q in find(y, lambda q: q.op == "mget" and q.a[0].op == "agg" and q.a[0].a[2] is m)]
                if any(q.a[1] is not key for q in own):
                    return False
                mm = {q: var("own", i) for i, q in enumerate(own)}
                if any(m in self.fbv(rewrite(y, lambda x: mm.get(x, x))) for y in e.a[2 + n:]):
                    return False
        return True

    # ------------------------------------------------ sorting
    def sort(self, t):
        n = t.a[0]
        xs, s, key = t.a[1:1 + n], t.a[1 + n], t.a[2 + n]
        kd = self.dep(key) - set(xs) - {("p", x) for x in xs}
        if s.op != "seq" or s.a[0] is not EMPTY or len(s.a) != 2 or s.a[1].op != "rep" or s.a[1].a[0] != 1 or len(s.a[1].a) != 4 or \
                s.a[1].a[3].op != "one":
            d = self.dep(s)
            if "G" in d:
                self.sorts[t] = (None, "sequence")
            return (d - {"G"}) | kd
        r, g, e = s.a[1].a[1:4]
        d = self.dep(e)
        if r not in d:
            return self.dep(s) | kd
        d = (d | self.dep(g) | kd) - {r}
        if ("p", r) in d:
            self.why.setdefault(t, "entries of a hash map are numbered in iteration order")
            d = (d - {("p", r)}) | {"G"}
        v, why = self.injective(xs, r, e.a[1], key)
        self.sorts[t] = (v, why)
        if v is False:
            self.why.setdefault(t, "sorting leaves entries of a hash map in iteration order: " + why)
            return d | {"G"}
        return d

    def injective(self, xs, r, e, key):
        """does the sort key tell all elements apart? True/False/None and why"""
        ms = {x.a[0] for x in find(e, lambda x: x.op in ("mkey", "mval") and x.a[1] is r)}
        if len(ms) != 1:
            return None, "elements"
        m = ms.pop()
        shapes = self.keyshapes(base(m))
        if not shapes:
            return None, "keys of the map"
        kt = subst(key, {x: e for x in xs})
        mkk = mk("mkey", m, r)
        parts, plain = self.paths(kt, mkk)
        need = set()
        for sh in shapes:
            need |= sh
        missing = [p for p in need if not any(p[:len(q)] == q for q in parts)]
        if missing:
            if find(kt, lambda x: x.op == "mval") and not self.counts(base(m)):
                return None, "the sort key uses the values"
            return False, "the sort key reads %s of keys with the parts %s" % (
                sorted(map(str, parts)) or "nothing", sorted(map(str, need)))
        if not plain or len(xs) != 1:
            return None, "the sort key combines all parts of the key"
        return True, ""

    def counts(self, m):
        """all values put into the map are constants or changes of the earlier value: nothing that tells entries apart"""
        ok = [m.op == "agg" and len(m.a) > 2]

        def go(t):
            if t.op == "one":
                e = t.a[1]
                if e.op == "orins" and num(e.a[1]) is not None:
                    return
                if e.op == "modify":
                    n = e.a[0]
                    if self.fbv(mk("z", *e.a[2 + n:])) <= set(e.a[1:1 + n]) and not find(mk("z", *e.a[2 + n:]), lambda x: x.op in ("mlen", "px")):
                        return
                ok[0] = False
            elif t.op in ("seq", "rep"):
                for y in t.a:
                    if type(y) is T:
                        go(y)
        if ok[0]:
            go(m.a[2])
        return ok[0]

    def keyshapes(self, m):
        """the leaf paths of the keys put into a map"""
        ks = []

        def go(t):
            if t.op == "one":
                e = t.a[1]
                if e.op == "orins":
                    ks.append(e.a[0])
                elif e.op == "agg" and e.a[0] == "tuple":
                    ks.append(e.a[2])
                elif e.op == "modify":
                    ks.append(e.a[1 + e.a[0]])
            elif t.op in ("seq", "rep", "fold"):
                for y in t.a:
                    if type(y) is T:
                        go(y)
        if m.op == "agg" and len(m.a) > 2:
            go(m.a[2])
        return [frozenset(self.leafpaths(k)) for k in ks if k.op not in ("mkey",)]

    def leafpaths(self, k, p=()):
        if k.op == "vr":
            return self.leafpaths(k.a[0], p)
        if k.op == "ite":
            r = set()
            for x in leaves(k):
                r |= self.leafpaths(x, p)
            return r
        if k.op == "agg":
            if k.a[0] in ("HV", "HF", "TV", "TS"):
                return {p + (1,)}
            r = set()
            for i, x in enumerate(k.a[2:]):
                r |= self.leafpaths(x, p + (i,))
            return r or {p}
        return {p}

    def paths(self, t, root):
        """(paths of root that t reads, whether t is just a tuple of such parts)"""
        def path(x):
            p = []
            while x is not root:
                if x.op == "f":
                    p.append(x.a[1])
                elif x.op == "hf":
                    p.append(x.a[1])
                elif x.op == "idx" and num(x.a[1]) is not None:
                    p.append(int(num(x.a[1])))
                elif x.op == "vr":
                    pass
                else:
                    return None
                x = x.a[0]
            return tuple(reversed(p))
        out = set()
        plain = [True]

        def go(x, top):
            p = path(x)
            if p is not None:
                out.add(p)
                if not top:
                    plain[0] = False
                return
            tt = top and x.op in ("agg", "vr")
            for y in x.a:
                if type(y) is T:
                    go(y, tt)
        go(t, True)
        return out, plain[0]
