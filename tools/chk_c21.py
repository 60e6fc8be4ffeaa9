"""C21: the web page never uses or frees a released image object."""
from common import Check
import web
from web import *
from chk_c20 import stored, pointer

MAKERS = {"create_image_weights", "create_decomposed_image"}


class Handles(Page):
    """The page, with the state of every image object's handle."""
    frees, uses, made = {}, {}, {}
    cellnames = set()

    def held_cells(self, st):
        return [k for k in st.ts if isinstance(k, tuple) and k[0] == "cell" and k[2] in self.cellnames]

    def value(self, st, k):
        return st.heap[k[1]].p.get(k[2])

    def defined(self, st, v):
        """True: a handle; False: not; None: it may be undefined"""
        if v in (UNDEF, NULL) or const(v) is not None:
            return False
        if v[:2] == ("t", "init"):
            eq = t("eq", *sorted((v, UNDEF), key=repr))
            if st.facts.get(eq) is True or st.facts.get(t("truthy", v)) is False:
                return False
            if st.facts.get(eq) is False or st.facts.get(t("truthy", v)) is True:
                return True
            return None
        return True

    def sending(self, name, a, transfer, st, n):
        self.sent += 1
        self.locked(st, name)
        if a is None or a[0] != "tup":
            return
        for k in self.uses.get(name, ()):
            v = a[1][k] if k < len(a[1]) else UNDEF
            free = k in self.frees.get(name, ())
            self.checked += 1
            if v in st.ts.get("freed", ()):
                self.bad(st, "freed again" if free else "used after it was freed", "request %s passes a handle (%s) that the page already asked to free" % (name, show(v)))
            d = self.defined(st, v)
            if d is False:
                self.bad(st, "a handle the page does not hold", "request %s passes %s, which is undefined there" % (name, show(v)))
            elif d is None and v[2].split(".")[-1] in self.cellnames:
                self.bad(st, "a handle the page does not hold", "request %s passes %s without a look whether it is defined" % (name, show(v)))
            if free:
                st.ts["freed"] = st.ts.get("freed", ()) + (v,)

    def awaiting(self, v, st, node):
        self.forgotten(st, "while the page waits")
        lk = st.ts.get("lock")
        if v[:2] == ("t", "init") and lk is None:
            k = self.cell_of(st, v)
            if k is not None:
                st.ts["lock"] = ("chain", k)
                if node is not None and node["type"] == "AwaitExpression" and self.value(st, k) == v:
                    self.bad(st, "one step at a time", "two events can both get past the wait for %s" % v[2])
        elif lk is not None and lk[0] == "flag" and self.truth(self.value(st, lk[1])) is False:
            self.bad(st, "one step at a time", "%s is cleared while the step still runs" % lk[1][2])
        if v[:2] == ("t", "request"):
            st.ev("await", v[3])
        if v[0] == "ref" and v[1] in st.ts.get("pend", ()):
            st.ts["pend"] = tuple(x for x in st.ts["pend"] if x != v[1])

    def cell_of(self, st, v):
        for k in st.ts:
            if isinstance(k, tuple) and k[0] == "cell" and v == t("init", self.cellid(k)):
                return k
        return None

    def cellid(self, k):
        return self.ids.get(k, k[2])

    def began(self, st):
        self.ids = {}
        for k in st.ts:
            if isinstance(k, tuple) and k[0] == "cell":
                v = self.value(st, k)
                if v[:2] == ("t", "init"):
                    self.ids[k] = v[2]

    def locked(self, st, name):
        lk = st.ts.get("lock")
        if lk is None:
            for k in list(st.ts):
                if isinstance(k, tuple) and k[0] == "cell":
                    i = t("init", self.cellid(k))
                    was = st.facts.get(t("truthy", i))
                    if was is None:
                        for b in (TRUE, FALSE):
                            f = st.facts.get(t("eq", *sorted((i, b), key=repr)))
                            if f is not None:
                                was = f if b == TRUE else not f
                    cur = self.value(st, k)
                    if was is not None and cur[0] == "bool" and cur[1] != was:
                        st.ts["lock"] = ("flag", k)
                        return
            if self.callbacks and any(True for _ in self.callbacks):
                st.doubt("the page hands functions to %s" % self.callbacks[0][0])
            self.bad(st, "one step at a time", "request %s is sent although another step may be in progress" % name)
            st.ts["lock"] = ("none",)
        elif lk[0] == "flag" and self.truth(self.value(st, lk[1])) is False:
            self.bad(st, "one step at a time", "%s is cleared while the step still runs" % lk[1][2])
        elif lk[0] == "chain":
            q = self.value(st, lk[1])
            if q[:2] == ("t", "new") and q[4] in st.ts.get("resolved", ()):
                self.bad(st, "one step at a time", "request %s is sent after the next step was let in" % name)

    def on_resolve(self, st, promise):
        st.ts["resolved"] = st.ts.get("resolved", ()) + (promise,)

    def on_async(self, before, st, promise):
        ts, log = before
        if ts.get("lock") is not None and waits(st.log[len(log):]) and promise[1] not in st.ts.get("pend", ()):
            st.ts["pend"] = st.ts.get("pend", ()) + (promise[1],)

    def forgotten(self, st, when):
        for k in self.held_cells(st):
            v = self.value(st, k)
            if v in st.ts.get("freed", ()) and self.defined(st, v) is not False:
                self.bad(st, "forgotten when it is freed", "%s still holds the handle %s" % (k[2], when))

    def ended(self, comp, st):
        self.forgotten(st, "when the step ends")
        lk = st.ts.get("lock")
        sent = [e for e in requests_of(st.log)]
        if lk and sent:
            pend = set(st.ts.get("pend", ()))
            if lk[0] == "chain":
                q = self.value(st, lk[1])
                o = self.obj(st, q)
                if q[0] == "ref":
                    pend.discard(q[1])
                if q == t("init", self.cellid(lk[1])):
                    self.bad(st, "one step at a time", "the next step does not wait for this one: %s is not updated" % lk[1][2])
                elif o is not None and o.k == "promise" and len(o.x) < 3:
                    self.bad(st, "one step at a time", "the next step does not wait for this one: %s is settled already" % lk[1][2])
                elif o is None and q[:2] != ("t", "new"):
                    self.report("unk", "one step at a time", self.where, "%s is %s" % (lk[1][2], show(q)))
            if pend and not any(e for e in pend if e is None):
                self.bad(st, "one step at a time", "the step is over before a part of it is: a promise is not awaited")
        # no object is dropped
        if comp == "n":
            held = {self.value(st, k) for k in self.held_cells(st)}
            mine = {t("init", self.cellid(k)) for k in self.held_cells(st)}
            for e in sent:
                if e[1] in self.made and ("failed", e[3]) not in st.ts:
                    pass
            for v in mine:
                if v not in held and v not in st.ts.get("freed", ()) and self.defined(st, v) is not False:
                    self.bad(st, "freed before it is replaced", "the handle %s is replaced or forgotten without a request to free it" % v[2])


def waits(log):
    return any(e[0] == "await" or e[0] == "loop" and any(waits(l) for l in e[3]) for e in log)


def run():
    c = Check("C21", "typestate of the image objects' handles over every path of every event handler of the page, from any earlier state: when a request to "
              "free a handle is sent, no variable holds it at the next point where other code can run, it is in no later request, only handles known "
              "to be defined are sent, none is replaced unfreed, and every request is sent while the step holds a lock (a chained promise or a flag) "
              "that is released only after its last request was answered")
    c.assumptions += ["a step's own functions run between awaits without interruption (JavaScript's run-to-completion)"]
    res = {}

    def rep(kind, what, where, detail):
        res.setdefault((kind, what, where), detail)
    try:
        s = System()
        cells = stored(s)
        cls = type("Handles1", (Handles,), {})
        cls.frees, cls.uses = {}, {}
        for m in {r[0] for r in s.p.requests.values() if r[0]}:
            for comp, v, st in s.w.paths(m):
                for e in libs_of(st.log):
                    for role, a in zip(ROLE.get(e[1], ()), e[2]):
                        if role in ("weights", "decomposed") and a[:2] == ("t", "get") and a[2] == ARGS and const(a[3]) is not None:
                            cls.uses.setdefault(m, set()).add(const(a[3]))
                            if e[1].startswith("free_"):
                                cls.frees.setdefault(m, set()).add(const(a[3]))
        cls.cellnames = {n for n, vs in cells.items() if any((pointer(s, v, cells) or set()) & MAKERS for v in vs)}
        p = cls(rep)
        p.sent = p.checked = 0
        p.sys = s
        entries = p.start()
        n = 0
        for w, runs in entries:
            p.where = w
            for comp, v, st in runs:
                o = p.obj(st, v) if v is not None else None
                if o is not None and o.k == "promise" and o.x[0] == "err":
                    comp = "throw"
                n += 1
                p.ended(comp, st)
    except Abort as e:
        c.unk("page analysed", "image-palette-recoloring-web", str(e))
        return c.finish()
    bad = {(what, where) for kind, what, where in res if kind == "bad"}
    for (kind, what, where), d in sorted(res.items(), key=repr):
        (c.bad if kind == "bad" else c.unk)(what, where, d)
    if not p.cellnames:
        c.unk("handles found", p.file, "no variable holds an image object's handle")
    for w, runs in entries:
        if any(any(requests_of(st.log)) for _, _, st in runs):
            for what in ("freed again", "used after it was freed", "a handle the page does not hold", "one step at a time", "forgotten when it is freed",
                         "freed before it is replaced"):
                if (what, w) not in bad:
                    c.ok(what, w, "%d paths" % len(runs))
    c.count("handles", len(p.cellnames))
    c.count("page paths", n)
    c.count("requests sent", p.sent)
    c.count("handles sent", p.checked)
    return c.finish()
