"""C09: searches only ever start from a simplex that exists.

Searches are analysed on small abstract triangulations, one simplex included, in every state that earlier searches can
leave behind: what is remembered, where each walk starts and what it moves to must be simplices of the triangulation, and
no search may be bound to panic."""
from common import Check
import vbuild, search
from chk_c08 import ERR, cases
from terms import *
from models import I0
from eng import Abort
from search import plain, UNIT, facet, isint
from chk_c02 import subterms


def remembered(A, state):
    """the simplex numbers that a state remembers: [number or None]; None if not understood"""
    if A.kind == "raw":
        if state is UNIT:
            return []
        vs = []
        for x in plain(state):
            p = x.a[2] if x.op == "agg" and len(x.a) > 2 else None
            if p is None or not isint(p):
                return None
            vs.append(A.low.index(num(p)) if num(p) in A.low else A.M + num(p))
        return vs
    vs = []
    for c in {x for x in subterms(state) if x.op == "agg" and x.a[0] == "cell"}:
        for v in plain(c.a[2]):
            if v.op == "agg" and v.a[1] == 0:
                continue
            if v.op != "agg" or len(v.a) != 3 or not isint(v.a[2]):
                return None
            vs.append(num(v.a[2]))
    return vs


def analyse(c, name, make, stat):
    try:
        A = make()
        w = "%s, %s" % (A.what("search"), name)
        start = A.split(A.new()) if A.kind == "array" else [(UNIT, "")] + [(facet(I0(i)), "from %d" % i) for i in A.low]
    except ERR as e:
        c.unk("search", name, "%s: %s" % (type(e).__name__, str(e)[:200]))
        return
    todo, seen = list(start), set()

    def good(kind, state, w):
        vs = remembered(A, state)
        if vs is None:
            c.unk(kind, w, show(state, 4)[:150])
            return False
        odd = sorted({v for v in vs if not 0 <= v < A.M})
        if odd:
            c.bad(kind, w, "%s is remembered, of %d simplices" % (", ".join(map(str, odd)), A.M))
            return False
        c.ok(kind, w, "%s" % vs)
        return True
    for s, n in todo:
        if not good("new", s, w):
            return
    while todo:
        s, n = todo.pop(0)
        if s in seen:
            continue
        seen.add(s)
        if len(seen) > 40:
            c.unk("search", name, "too many states")
            return
        runs = [False] + ([True, None] if A.kind == "array" else [None] if A.entry == "find_best_simplex" and s is UNIT else [])
        for how in runs:
            A.walks = {}
            try:
                r = A.search(s, how)
            except ERR as e:
                c.unk("search", "%s, after %s" % (w, n), "%s: %s" % (type(e).__name__, str(e)[:200]))
                continue
            stat["searches"] = stat.get("searches", 0) + len(r)
            if all(x[4] is FALSE for x in r):
                c.bad("search", w + (", starting with %s" % n if n else ""), "panics")
                continue
            for rec, vals in A.walks.items():
                init = [x for x in leaves(search.parts(rec)[3][0])]
                for kind, xs in (("start", init), ("walk", vals)):
                    ns = []
                    for x in xs:
                        if x.op == "agg":
                            x = next((y for y in x.a[2:] if isint(y)), x)
                        ns.append(num(x) if isint(x) else None)
                    if A.kind == "raw":
                        ns = [None if v is None else A.low.index(v) if v in A.low else A.M + v for v in ns]
                    odd = sorted({v for v in ns if v is not None and not 0 <= v < A.M})
                    if odd:
                        c.bad(kind, w, "%s, of %d simplices" % (", ".join(map(str, odd)), A.M))
                    elif None in ns:
                        c.unk(kind, w, "a start that is not known")
                    else:
                        c.ok(kind, w, "%s" % ns)
            for x in r:
                try:
                    nexts = A.split(x[3]) if A.kind == "array" else [(y, show(y, 4)) for y in plain(x[3])]
                except ERR as e:
                    c.unk("state", w, "%s: %s" % (type(e).__name__, str(e)[:200]))
                    continue
                for y, m in nexts:
                    if y not in seen and good("state", y, w):
                        todo.append((y, m))
    if A.kind == "array" and A.body("clear_start_hint"):
        for s in list(seen):
            try:
                p = A.T.local(s)
                A.run("clear_start_hint", p)
                for y, m in A.split(A.I.load(A.st, p)):
                    good("cleared", y, w)
            except ERR as e:
                c.unk("cleared", w, str(e)[:200])


def run():
    c = Check("C09", "what a searcher remembers, in every state that searches lead to, and where its walks start and move to, are simplices of the triangulation")
    d = vbuild.mir()

    def job(name, make):
        def go(c):
            stat = {"triangulations": 1}
            analyse(c, name, make, stat)
            for k, v in stat.items():
                c.count(k, v)
        return go
    c.parallel([job(name, make) for name, make in cases(d)])
    return c.finish()
