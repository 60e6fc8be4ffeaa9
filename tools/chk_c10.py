"""C10: simplex walks terminate.

Every loop of a search that no iterator or counter bounds needs a variant: on each way back to its start, comparisons must
have held that no cycle of simplices can satisfy (each adds a strict increase by a tolerance-sized margin). The loops and
the conditions under which they go on come from the value-flow graph of the searches on small abstract triangulations.
Where a search reports that there is no simplex, each simplex must have been excluded by a test, or the point found to be
outside of the triangulation."""
from common import Check
import vbuild, search, poly, canon, itertools
import chk_c08 as c8
from chk_c08 import ERR, cases
from chk_c02 import subterms
from fractions import Fraction
from terms import *
from models import I0
from eng import Abort
from search import Must, isint

NOTHING = search.NONE


# ---------------------------------------------------------------- loops
def watch(A):
    """the loops that the analysis of A's searches meets"""
    A.loops = {}

    def onloop(info, cnt, brk):
        I = A.I
        mus = dict(info["mus"])
        if cnt is not None:
            A.loops[("counted", info["key"].a[1:], cnt)] = (None,)
            return
        memo = {}

        def back(m):
            if m not in memo:
                b = I.mu_back(info, m)
                memo[m] = restrict_(b, info["more"])
            return memo[m]
        # the variables that the exits depend on
        need, todo = [], [m for m in mus if m in brk.fv]
        while todo:
            m = todo.pop()
            if m not in need:
                need.append(m)
                todo += [x for x in mus if x in back(m).fv]
        need.sort(key=lambda t: t.id)
        L = (brk, need, [I.mu_init(info, m) for m in need], [back(m) for m in need], info["k"], info["key"])
        A.loops[(brk, tuple(L[2]), tuple(L[3]))] = L
    A.I.onloop = onloop


def restrict_(b, more):
    return b if more is TRUE else restrict(b, more)


def Not_(c):
    return mapl(c, lambda x: FALSE if x is TRUE else TRUE if x is FALSE else Not(x))


def counted(C, k):
    """whether going on requires the round to be below some bound that does not depend on the round"""
    f = Must().facts(C, True) if C.op != "ite" else Must()(C, TRUE)
    for c, v in f or ():
        if c.op == "op" and c.a[0] in ("<", "<=") and k in c.fv:
            lo, hi = (c.a[1], c.a[2]) if v else (c.a[2], c.a[1])
            if k in lo.fv and k not in hi.fv and lin_parts(lo)[1].get(k, 0) > 0:
                return True
            if k in hi.fv and k not in lo.fv and lin_parts(hi)[1].get(k, 0) < 0:
                return True
    return False


class Up:
    """comparisons as polynomials that are positive, without their margins"""

    def __init__(self, A):
        self.A = A
        self.memo = {}

    def nonneg(self, t):
        return t is self.A.eps or t.op == "op" and t.a[0] in ("fabs", "fsqrt")

    def strip(self, x):
        r, tol = {}, False
        for mono, c in x.items():
            if c < 0 and all(self.nonneg(poly._t[i]) for i in mono):
                tol |= any(poly._t[i] is self.A.eps for i in mono)
            else:
                r[mono] = c
        return r, tol

    def __call__(self, c, v):
        if c.op != "op" or c.a[0] not in ("f<", "f<=") or len(c.a) != 3:
            return ()
        p, q = self.A.geo.of(c.a[1]), self.A.geo.of(c.a[2])
        if p is None or q is None:
            return ()
        x = poly.sub(q, p) if v else poly.sub(p, q)
        x, tol = self.strip(x)
        strict = (c.a[0] == "f<") == v or tol
        if not strict:
            return ()
        k = frozenset(x.items())
        return [("gt", k, False)] + ([("gt", k, True)] if tol else [])


class Progress(Must):
    """must-facts closed under addition of comparisons"""

    def __call__(self, t, leaf, most=3000):
        """the comparisons implied together, whatever their order in the decision graph"""
        count, res = [0], []

        def go(t, ctx):
            count[0] += 1
            if count[0] > most:
                raise Abort("too many ways through a round")
            if t.op != "ite":
                if t is leaf:
                    x = self.closed(ctx)
                    if x is not None:
                        res.append(x)
                return
            for c, s in ((True, t.a[1]), (False, t.a[2])):
                if s is TRUE or s is FALSE:
                    if s is not leaf:
                        continue
                f = self.facts(t.a[0], c)
                if f is not None and not any((y[0], not y[1]) in ctx for y in f if type(y[1]) is bool):
                    go(s, ctx | f)
        go(t, frozenset())
        return frozenset.intersection(*res) if res else None

    def closed(self, x):
        x = set(x)
        todo = [y for y in x if y[0] == "gt"]
        while todo:
            a = todo.pop()
            if not a[1]:
                return None              # 0 > 0
            for b in [y for y in x if y[0] == "gt"]:
                s = poly.add(dict(a[1]), dict(b[1]))
                if len(s) > max(len(a[1]), len(b[1])) or len(s) == len(a[1]) + len(b[1]) or any(abs(c) > 1 for c in s.values()):
                    continue             # nothing cancels: not a chain of comparisons
                n = ("gt", frozenset(s.items()), a[2] or b[2])
                if n not in x and sum(1 for y in x if y[0] == "gt") < 60:
                    x.add(n)
                    todo.append(n)
        return frozenset(x)


def loop(A, L):
    """None if the loop is bounded, else what lets it go on for ever (or raises Abort)"""
    if L[0] is None:
        return None
    brk, need, init, back, k, key = L
    C = Not_(brk)
    if counted(C, k):
        return None
    V = search.discretes(C, need, init, back)
    D = And(C, subst(C, {**dict(zip(need, back)), k: mk("v", "next", k)}))
    if D is FALSE:
        return None
    disc = [m for m in need if m in V]
    cont = [m for m in need if m not in V]
    up = Up(A)
    nodes, edges = [], {}
    # values that stay as they are computed: opaque
    hide = {}

    def opaque(t):
        return search.put(t, hide)
    for v in itertools.product(*[sorted(V[m], key=lambda t: t.id) for m in disc]):
        for m, b in zip(need, back):
            if m in cont:
                for l in leaves(subst(b, dict(zip(disc, v)))):
                    if l is not m and not l.fv & set(need) and num(l) is None:
                        hide[l] = var("val", l.id)
    # entered in any state
    todo = [(tuple(v), tuple(cont)) for v in itertools.product(*[sorted(V[m], key=lambda t: t.id) for m in disc])]
    while todo:
        s = todo.pop(0)
        if s in nodes:
            continue
        nodes.append(s)
        if len(nodes) > 120:
            raise Abort("a walk with too many states")
        sub_ = {**dict(zip(disc, s[0])), **{m: v for m, v in zip(cont, s[1]) if m is not v}}
        d = opaque(subst(D, sub_))
        if d is FALSE:
            continue
        bk = {m: opaque(subst(b, sub_)) for m, b in zip(need, back)}
        for B, vals in joint(d, [bk[m] for m in disc + cont]):
            f = Progress(up)(B, TRUE)
            if f is None:
                continue
            n = (tuple(vals[:len(disc)]), tuple(vals[len(disc):]))
            edges.setdefault(s, {})[n] = (f, c8.conditions(B))
            todo.append(n)
    for cyc in cycles(nodes, edges):
        es = list(zip(cyc, cyc[1:] + cyc[:1]))
        fs = [edges[a][b][0] for a, b in es]
        for tol in (True, False):
            got = [[y[1] for y in f if y[0] == "gt" and y[2] is tol or tol is False and y[0] == "gt"] for f in fs]
            n = 1
            for g in got:
                n *= len(g)
            if n > 50000:
                raise Abort("too many comparisons")
            if any(not total(ch) for ch in itertools.product(*got)):
                break
        else:
            odd = [c for a, b in es for c in edges[a][b][1] if not known(A, c)]
            if odd:
                raise Abort("the condition %s" % show(odd[0], 4)[:150])
            return "bound", "may go round %s: no bound, and no comparison that has to fail" % " -> ".join(
                ",".join(str(num(x)) for x in s[0] if isint(x)) or "?" for s in cyc + cyc[:1])
        if tol is False:
            return "margin", "progress from round to round is not by a margin"
    return None


def total(ch):
    r = {}
    for x in ch:
        r = poly.add(r, dict(x))
    return r


def known(A, c):
    """a comparison of values that are understood"""
    if c.op == "op" and c.a[0] in ("f<", "f<="):
        ps = [A.geo.of(x) for x in c.a[1:]]
        return all(p is not None and all(understood(t) for t in poly.terms(p)) for p in ps)
    return (c.op == "op" and c.a[0] in ("<", "<=", "==") or c.op == "is1") and understood(c)


def understood(t):
    return not any(x.op in ("more", "elem", "nth", "rank", "lost", "rec", "fold", "bind") or x.op == "v" and x.a[0] == "mu" for x in subterms(t))


def joint(d, ts):
    """the cases of the terms ts under d: (condition, values)"""
    todo = [(d, [])]
    for i in range(len(ts)):
        new = []
        for B, vals in todo:
            f = Must()(B, TRUE)
            if f is None:
                continue
            t = search.under(ts[i], f)
            for l in leaves(t):
                B2 = And(B, mapl(t, lambda x: TRUE if x is l else FALSE)) if t.op == "ite" else B
                if B2 is not FALSE:
                    new.append((B2, vals + [l]))
        todo = new
        if len(todo) > 60:
            raise Abort("too many cases in a round")
    return todo


def cycles(nodes, edges, most=3000):
    """simple cycles"""
    res, count = [], [0]
    order = {s: i for i, s in enumerate(nodes)}

    def go(path):
        count[0] += 1
        if count[0] > most:
            raise Abort("too many ways round")
        for n in edges.get(path[-1], {}):
            if n == path[0]:
                res.append(list(path))
            elif n in order and order[n] > order[path[0]] and n not in path:
                go(path + [n])
    for s in nodes:
        go([s])
    return res


# ---------------------------------------------------------------- completeness
def tells(A, outer):
    """what a literal excludes: simplices that cannot contain the point"""
    eps = poly.of(A.eps)
    one = poly.of(const(1.0, "f64"))
    table = {}
    for i, S in enumerate(A.simplices):
        for v in S:
            for b in S:
                lam = A.geo.lam(S, v, b)
                neg = frozenset(poly.sub(poly.neg(lam), eps).items())           # -eps - lam
                big = frozenset(poly.sub(poly.sub(lam, one), eps).items())
                side = not any(v not in T and S - {v} <= T for T in A.simplices if T is not S)
                table.setdefault(neg, set()).update(range(A.M) if side and outer else [i])
                table.setdefault(big, set()).add(i)

    def f(c, v):
        if c.op != "op" or c.a[0] not in ("f<", "f<=") or len(c.a) != 3:
            return ()
        p, q = A.geo.of(c.a[1]), A.geo.of(c.a[2])
        if p is None or q is None:
            return ()
        x = poly.sub(q, p) if v else poly.sub(p, q)
        r = [("out", i) for i in table.get(frozenset(x.items()), ())]
        if not r and boxed(A, x):
            r = [("out", i) for i in range(A.M)]
        return r
    return f


def boxed(A, x):
    """a comparison that puts the point beyond a bound of the triangulation"""
    r, _ = Up(A).strip(x)
    ts = [(poly._t[m[0]], c) for m, c in r.items() if len(m) == 1]
    if len(ts) != 2 or len(r) != 2:
        return False
    for (p, cp), (b, cb) in (ts, ts[::-1]):
        if p in A.P and A.bound(b) == (A.P.index(p), "max" if cp > 0 else "min") and cp == -cb and abs(cp) == 1:
            return True
    return False


def plainbox(A, c):
    """a comparison of the point with bounds"""
    ps = [A.geo.of(x) for x in c.a[1:]] if c.op == "op" and c.a[0] in ("f<", "f<=") else [None]
    return all(p is not None and all(t in A.P or t is A.eps or A.bound(t) for t in poly.terms(p)) for p in ps)


def nothing(c, A, w, ret, pc):
    if pc is FALSE:
        return
    none = I0(NOTHING)
    if not any(l is none for l in leaves(ret)):
        c.ok("none", w, "always finds a simplex")
        return
    B = mapl(ret, lambda x: TRUE if x is none else FALSE)
    f = Must(tells(A, A.kind == "array"))(B, TRUE)
    if f is None:
        return
    out = {y[1] for y in f if y[0] == "out"}
    missing = [i for i in range(A.M) if i not in out and i not in A.degenerate]
    if not missing:
        c.ok("none", w, "every simplex excluded")
        return
    odd = [x for x in c8.conditions(B) if not known(A, x) and not plainbox(A, x)]
    if odd:
        c.unk("none", w, "the condition %s" % show(odd[0], 4)[:150])
    else:
        c.bad("none", w, "reports that there is none without a test of simplex %s" % ", ".join(map(str, missing)))


# ----------------------------------------------------------------
def analyse(c, name, make, stat):
    try:
        A = make()
        watch(A)
        sts = A.states()
        seen = set()

        def once(w, r):
            for ch, ret, coords, st, pc in r:
                if (ret, pc) in seen:
                    continue
                seen.add((ret, pc))
                stat["searches"] = stat.get("searches", 0) + 1
                walk = ", ".join(str(num(v)) for v in ch.values())
                nothing(c, A, "%s, %s%s" % (A.what(w), name, ", from simplex " + walk if walk else ""), ret, pc)
        for sname, s, r in sts:
            once("search", r)
        if A.kind == "array":
            once("bruteforce", A.search(A.split(A.new())[0][0], True))
        if A.kind == "array" or A.entry == "find_best_simplex":
            once("plain", A.search(A.split(A.new())[0][0], None))
    except ERR as e:
        c.unk("search", name, "%s: %s" % (type(e).__name__, str(e)[:200]))
        return
    for L in A.loops.values():
        w = "%s, %s" % (A.what("search"), name)
        stat["loops"] = stat.get("loops", 0) + 1
        try:
            r = loop(A, L)
        except ERR as e:
            c.unk("walk", w, "%s: %s" % (type(e).__name__, str(e)[:300]))
            continue
        if r is None:
            c.ok("walk", w, "counted" if L[0] is None else "progress")
        else:
            c.bad(r[0], w, r[1])


def run():
    c = Check("C10", "every loop of a search that no iterator or counter bounds makes strict progress by a margin on every way "
              "back to its start; a search that reports no simplex has excluded each")
    d = vbuild.mir()

    def job(name, make):
        def go(c):
            stat = {"triangulations": 1}
            analyse(c, name, make, stat)
            for k, v in stat.items():
                c.count(k, v)
        return go
    c.parallel([job(name, make) for name, make in cases(d)])
    return c.finish()
