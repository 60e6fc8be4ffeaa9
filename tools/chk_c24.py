"""C24: the palette error bound is checked against the palette that is returned."""
import itertools
from common import Check
import pipe, canon
from pipe import *
from canon import column

ROUNDS = list(itertools.product((0, 3, 4, 5, 7), (3, 4, 5, 6, 7), (3, 4, 5, 6, 7, 8), (0.0, 1.0, 2.0), (True, False), (True, False)))


def run():
    c = Check("C24", "the stop condition and the result of the simplification loop, as decision diagrams over (sizes of hull, candidate, "
              "minimum and maximum; order of error and bound), agree with the specification in every ordering of these quantities; the "
              "hull that the error is computed on is the clamped form of the term that the loop adopts")

    def go():
        P = Pipe()
        for i, b in enumerate(P.pinst()):
            inst = b["name"].split("::", 1)[-1]
            try:
                P.I.log.clear()
                t = P.palette(i)
                log = list(P.I.log)
                # with a term that does not depend on it, the case of no usable edge is a panic
                loop(c, t, inst)
                exhausted(c, log, inst)
            except Missing as e:
                c.unk("compute_palette", inst, str(e))
    pipe.run(go, c)
    return c.finish()


class Unknown(Exception):
    pass


class Eval:
    """value of a condition for given quantities; `base` maps terms to values"""

    def __init__(self, base, err, edges):
        self.base, self.err, self.edges = base, err, edges
        self.errs = set()

    def __call__(self, t):
        if t in self.base:
            return self.base[t]
        o, a = t.op, t.a
        if o == "c":
            return num(t) if not isinstance(a[0], bool) else a[0]
        if o == "ite":
            q = self(a[0])
            return self(a[1] if q else a[2])
        if o == "cast":
            return self(a[2])
        if o == "not":
            return not self(a[0])
        if o == "op":
            p = a[0]
            if p in ("f<", "f<=", "f==", "f!="):
                xs = []
                for x in a[1:]:
                    try:
                        xs.append(self(x))
                    except Unknown:
                        if x.op == "op" and x.a[0] in ("f*", "f/", "f+", "f-", "fsqrt") or x.op in ("fsum", "ite", "fold"):
                            self.errs.add(x)
                            xs.append(self.err)
                        else:
                            raise
                return {"f<": lambda x, y: x < y, "f<=": lambda x, y: x <= y, "f==": lambda x, y: x == y, "f!=": lambda x, y: x != y}[p](*xs)
            xs = [self(x) for x in a[1:]]
            if p in ("imax", "fmax"):
                return max(xs)
            if p in ("imin", "fmin"):
                return min(xs)
            if p in ("<", "<=", "==", "!=") and len(xs) == 2:
                return {"<": xs[0] < xs[1], "<=": xs[0] <= xs[1], "==": xs[0] == xs[1], "!=": xs[0] != xs[1]}[p]
            if p in ("+", "-", "*") and len(xs) == 2:
                return {"+": xs[0] + xs[1], "-": xs[0] - xs[1], "*": xs[0] * xs[1]}[p]
            if p in ("satsub",):
                return max(0, xs[0] - xs[1])
            if p == "f*":
                return xs[0] * xs[1]
        if usable(t):
            return self.edges
        e = linear(t)
        if e is not None:
            return sum(k * (1 if x is None else self(x)) for x, k in e)
        raise Unknown(show(t, 2)[:160])


def counted(x):
    """a comparison of the number of usable edges"""
    return x.op == "op" and x.a[0] in ("<", "<=", "==", "!=") and any(type(y) is T and (usable(y) or linear(y) and any(z is not None and usable(z) for z, k in linear(y)))
                                                                    for y in x.a[1:])


def exhausted(c, log, inst):
    """nothing is taken from the best edge when there is none"""
    n = 0
    for e in log:
        if e[0] != "unwrap" or not any(counted(x) for x in atoms(e[2])):
            continue
        n += 1
        if And(e[1], Not(e[2])) is FALSE:
            c.ok("exhausted", inst, "a best edge is used only if there is one")
        elif any(counted(x) for x in atoms(e[1])):
            c.unk("exhausted", inst, "an edge may be missing")
        else:
            c.bad("exhausted", "compute_palette", "the best edge is unwrapped although there may be no edge that can be collapsed: the computation panics")
    if not n:
        c.ok("exhausted", inst, "no best edge is unwrapped")


def usable(t):
    """does the term count the edges whose linear program has a solution?"""
    if t.op != "isum":
        return False
    x = t.a[3]
    if x.op == "ite" and x.a[0].op == "lpok" and num(x.a[1]) == 1 and num(x.a[2]) == 0:
        return True
    return False


def linear(t):
    """[(term, factor)] of an integer sum"""
    if t.op == "lin":
        try:
            k0, xs = t.a[0], t.a[1:]
            r = [(None, k0)] if isinstance(k0, int) else None
            if r is None:
                return None
            for x in xs:
                if isinstance(x, tuple):
                    r.append((x[0], x[1]))
                else:
                    return None
            return r
        except (IndexError, TypeError):
            return None
    return None


def loop(c, t, inst):
    fs = [x for x in find(t, lambda x: x.op == "fold" and x.a[0] == 2 and x.a[4].op in ("hull", "ite") and x.a[3].op == "gen")]
    fs = [f for f in fs if f.a[3].a[0].op == "firstm" and "rounds" in show(f.a[3].a[0].a[4], 2)]
    if len(fs) != 1:
        c.unk("loop", inst, "%d simplification loops" % len(fs))
        return
    F = fs[0]
    n, k, m, g, init, step = F.a
    fm = g.a[0]
    if fm.a[0] != 3:
        c.unk("loop", inst, "%d loop variables" % fm.a[0])
        return
    ch, prev, brk = fm.a[2], fm.a[3], fm.a[5]
    if fm.a[6] is not init:
        ch, prev = prev, ch
        if fm.a[7] is not init:
            c.unk("loop", inst, "state of the loop")
            return
    c.count("loops")
    C = canon.alpha
    cand = C(subst(step, {m: ch}))
    errs = set()
    sizes = {}

    def quantities(h, cnd, prv, q):
        mn, mx, n, e, same, some = q
        base = {var("min"): mn, var("max"): mx, var("bound"): 1.0, mk("nv", h): n}
        s = n if same else n - 1
        # the previous round's size is the size of this round's hull
        base[prv] = n
        base["cand"] = s
        base["edges"] = 2 if some else 0
        return base, e

    def ev(cond, h, q, prv):
        base, e = quantities(h, None, prv, q)
        s, edges = base.pop("cand"), base.pop("edges")
        if (cond, h) not in sizes:
            w = C(subst(step, {m: h}))
            sizes[cond, h] = [x for x in find(cond, lambda x: x.op == "nv" and x.a[0] is not h) if C(x.a[0]) is w]
        for x in sizes[cond, h]:
            base[x] = s
        E = Eval(base, e, edges)
        r = E(cond)
        errs.update((x, h) for x in E.errs)
        return r
    names = "minimum %s, maximum %s, hull size %s, error %s the bound, candidate %s"
    words = {0.0: "below", 1.0: "at", 2.0: "above"}

    def text(q):
        return names % (q[0], q[1], q[2], words[q[3]], "no smaller" if q[4] else "smaller") + ("" if q[5] else ", no edge can be collapsed")
    # the stop condition
    try:
        for q in ROUNDS:
            mn, mx, n, e, same, some = q
            r = ev(brk, ch, q, prev)
            if n <= max(mn, 4):
                if not r:
                    c.bad("minimum", "compute_palette", "goes on although the minimum is reached: " + text(q))
                    break
            elif n <= mx and e > 1.0:
                if not r:
                    c.bad("bound", "compute_palette", "goes on although the bound is exceeded: " + text(q))
                    break
            elif not some:
                if not r:
                    c.bad("exhausted", "compute_palette", "goes on although no edge can be collapsed: " + text(q))
                    break
            elif not same and r:
                c.bad("stop", "compute_palette", "stops early: " + text(q))
                break
        else:
            c.ok("stop condition", inst, "%d orderings" % len(ROUNDS))
    except Unknown as x:
        c.unk("stop condition", inst, str(x))
    # what is returned
    hs = {x.a[0] for x in topterms(t, ("pc",)) if F in set(leaves(x.a[0]))}
    if hs != {F}:
        hs.discard(F)
    S = C(subst(step, {m: F}))
    for H in hs:
        try:
            for q in ROUNDS:
                mn, mx, n, e, same, some = q
                l = H
                prv = [x for x in find(H, lambda x: x.op == "fold" and x is not F and x.a[0] == 2 and x.a[4].op == "nv")]
                while l.op == "ite":
                    l = l.a[1] if ev(l.a[0], F, q, prv[0] if prv else var("-")) else l.a[2]
                if l is F:
                    kind = "kept"
                elif C(l) is S:
                    kind = "adopted"
                else:
                    raise Unknown("returned hull " + show(l, 2)[:120])
                if n <= max(mn, 4) and kind == "adopted":
                    c.bad("minimum", "compute_palette result", "a simplification below the minimum is returned: " + text(q))
                    break
                if not some and kind == "adopted":
                    c.bad("exhausted", "compute_palette result", "a hull is adopted although no edge can be collapsed: " + text(q))
                    break
                if max(mn, 4) < n <= mx and e > 1.0 and kind == "adopted":
                    c.bad("bound", "compute_palette result", "a simplification that exceeds the bound is returned: " + text(q))
                    break
            else:
                c.ok("returned hull", inst, "%d orderings" % len(ROUNDS))
        except Unknown as x:
            c.unk("returned hull", inst, str(x))
    if not hs:
        c.unk("returned hull", inst, "not found")
    # the hull that the error is about
    for X, h in errs:
        error(c, X, h, C(subst(step, {m: h})), inst)
    if not errs:
        c.unk("error", inst, "no error term")


def tops(t, out, seen):
    """hulls and triangulations that t looks into (not those that they are built from)"""
    if t in seen:
        return
    seen.add(t)
    if t.op in ("hull", "tri"):
        out.add(t)
        return
    if t.op == "hf":
        return
    for x in t.a:
        if type(x) is T:
            tops(x, out, seen)


def error(c, X, h, cand, inst):
    hs = set()
    tops(X, hs, set())
    direct = {x.a[0] for x in topterms(X, ("pc", "fv", "nf", "nv"))}
    found = topterms(X, ("found",))
    c.count("inside tests", len(found))
    if not found:
        c.unk("inside test", inst, "none found")
    for x in sorted(hs, key=lambda x: x.id):
        if x.op == "hull":
            clamped(c, "distance", x, cand, h, inst)
    if h in direct:
        c.bad("error", "compute_palette distance", "uses the hull before the simplification")
    for x in found:
        tri = x.a[0]
        if tri.op != "tri":
            c.unk("inside test", inst, show(tri, 2)[:120])
            continue
        inner = set()
        for k in range(3):
            col = column(tri.a[1], k)
            o = items(col) if col is not None else None
            if o is None:
                inner = None
                break
            kk, n, v = o
            if v.op == "pc" and v.a[0].op == "hull" and v.a[1] is kk and num(v.a[2]) == k and n is mk("nv", v.a[0]):
                inner.add(v.a[0])
            else:
                inner = None
                break
        if inner and len(inner) == 1:
            y = inner.pop()
            if canon.alpha(y) is cand:
                c.bad("inside test", "compute_palette", "uses the candidate before its vertices were clamped")
            elif y is h:
                c.bad("inside test", "compute_palette", "uses the hull before the simplification")
            else:
                clamped(c, "inside test", y, cand, h, inst)
        elif not clampform(tri, cand):
            c.unk("inside test", inst, show(tri, 4)[:160])
        else:
            c.ok("inside test", inst)


def topterms(t, ops, seen=None, out=None):
    seen = set() if seen is None else seen
    out = set() if out is None else out
    if t in seen:
        return out
    seen.add(t)
    if t.op in ops:
        out.add(t)
    if t.op in ("hull", "tri", "hf"):
        return out
    for x in t.a:
        if type(x) is T:
            topterms(x, ops, seen, out)
    return out


def items(col):
    """(index, count, element) of a sequence with one element per index"""
    if col.op == "seq" and len(col.a) == 2 and col.a[0] is EMPTY and col.a[1].op == "rep" and col.a[1].a[0] == 1 and len(col.a[1].a) == 4:
        r = col.a[1]
        if r.a[2].op == "gen" and r.a[3].op == "one" and r.a[3].a[0] is TRUE:
            return r.a[1], r.a[2].a[0], r.a[3].a[1]
    return None


def limits(t):
    """(value, low, high) of a value limited to a constant range"""
    lo, hi = float("-inf"), float("inf")
    while t.op == "op" and t.a[0] in ("fclamp", "fmin", "fmax"):
        p, xs = t.a[0], list(t.a[1:])
        if p == "fclamp":
            l, u = num(xs[1]), num(xs[2])
            if l is None or u is None:
                return None
            lo, hi = max(lo, l), min(hi, u)
            t = xs[0]
            continue
        ks = [x for x in xs if x.op == "c"]
        if len(ks) != 1:
            return None
        if p == "fmin":
            hi = min(hi, num(ks[0]))
        else:
            lo = max(lo, num(ks[0]))
        t = [x for x in xs if x is not ks[0]][0]
    return t, lo, hi


def clampform(h, cand):
    """True / a reason that it is not (definite) / None"""
    for k in range(3):
        col = column(h.a[1], k)
        o = items(col) if col is not None else None
        if o is None:
            return None
        kk, n, v = o
        l = limits(v)
        if l is None:
            return None
        v, lo, hi = l
        if not (v.op == "pc" and v.a[1] is kk and num(v.a[2]) == k and n.op == "nv" and n.a[0] is v.a[0]):
            return None
        if canon.alpha(v.a[0]) is not cand:
            return ("hull", v.a[0])
        if (lo, hi) != (0.0, 1.0):
            return ("range", (lo, hi))
    return True


def clamped(c, what, x, cand, h, inst):
    if canon.alpha(x) is cand:
        c.bad("error", "compute_palette " + what, "uses the candidate before its vertices were clamped")
        return
    r = clampform(x, cand)
    if r is True:
        c.ok("error", what + " for " + inst, "the clamped candidate")
    elif r is None:
        c.unk("error", what + " for " + inst, show(x, 4)[:160])
    elif r[0] == "range":
        c.bad("error", "compute_palette " + what, "the candidate's vertices are limited to %s instead of 0..1" % (r[1],))
    elif r[1] is h:
        c.bad("error", "compute_palette " + what, "uses the hull before the simplification")
    else:
        c.unk("error", what + " for " + inst, "another hull " + show(r[1], 3)[:160])
