"""C15: unusable palettes and channels are rejected, usable ones are not."""
from common import Check
import pipe
from pipe import *
from canon import Canon, column
from ints import ival

U = None      # unknown truth value


def n3(x):
    return None if x is None else not x


def beval(f, val):
    """truth of a decision diagram in three values; val(atom) gives True, False or None"""
    memo = {}

    def go(x):
        if x is TRUE:
            return True
        if x is FALSE:
            return False
        if x in memo:
            return memo[x]
        if x.op != "ite":
            return None
        v = val(x.a[0])
        if v is None:
            a, b = go(x.a[1]), go(x.a[2])
            r = a if a is b else None
        else:
            r = go(x.a[1] if v else x.a[2])
        memo[x] = r
        return r
    return go(f)


def arith(at, env):
    """truth of a comparison of integers, or None"""
    if at.op == "op" and at.a[0] in ("<", "==") and len(at.a) == 3:
        a, b = ival(at.a[1], env), ival(at.a[2], env)
        if a is not None and b is not None:
            return a < b if at.a[0] == "<" else a == b
    return None


class Palettes:
    """Truth of conditions on a palette: its size n, whether it holds a colour that is no hull vertex, whether it repeats one."""

    def __init__(self, pal):
        self.pal = pal
        self.K = Canon()
        self.hulls = {}

    def hull(self, h):
        """the coordinate formulas {component: term of the palette entry} of a hull of the palette, or None"""
        if h not in self.hulls:
            self.hulls[h] = self.hull_(h)
        return self.hulls[h]

    def hull_(self, h):
        if h.op != "hull":
            return None
        r = []
        for c in range(int(num(h.a[0]))):
            s = column(h.a[1], c)
            if s is None or s.op != "seq" or s.a[0] is not EMPTY or len(s.a) != 2:
                return None
            q = nest(s.a[1])
            if q is None or len(q[0]) != 1 or len(q[1]) != 1 or q[1][0].op != "one" or q[1][0].a[0] is not TRUE:
                return None
            k, n = q[0][0]
            if n is not mk("len", self.pal):
                return None
            e = q[1][0].a[1]
            rd = {x for x in find(e, lambda x: x.op == "idx" and x.a[0] is self.pal)}
            if {x.a[1] for x in rd} != {k}:
                return None
            r.append((k, e))
        return r

    def env(self, n, nonvertex, repeated, atoms_):
        e = {mk("len", self.pal): n}
        for at in atoms_:
            for x in find(at, lambda x: x.op == "nv"):
                if self.hull(x.a[0]):
                    e[x] = n - (1 if nonvertex else 0) - (1 if repeated else 0)
        return e

    def truth(self, f, n, nonvertex, repeated, extra=()):
        env = self.env(n, nonvertex, repeated, [f])
        env.update(extra)

        def val(at):
            if at.op == "ex" and at.a[0] == 1:
                return self.exists(at, env, nonvertex)
            return arith(at, env)
        return beval(f, val)

    def exists(self, at, env, nonvertex):
        """exists i below len(palette) with a condition on whether colour i is a vertex"""
        k, g, f = at.a[1], at.a[2], at.a[3]
        if g.a[0] is not mk("len", self.pal):
            return None
        classes = [True] + ([False] if nonvertex else [])
        rs = []
        for isv in classes:
            rs.append(beval(f, lambda a: self.colour(a, k, isv, env)))
        if any(r is True for r in rs):
            return True
        return None if any(r is None for r in rs) else False

    def colour(self, at, k, isv, env):
        """truth of a condition on colour k of the palette, which is or is not a vertex"""
        if k not in free(at):
            return arith(at, env)
        if at.op == "ex" and at.a[0] == 1:
            v, g, f = at.a[1], at.a[2], at.a[3]
            if g.a[0].op != "nv" or not self.hull(g.a[0].a[0]):
                return None
            same, other = self.vertex(f, v, k, g.a[0].a[0])
            rs = [other] + ([same] if isv else [])
            if any(r is True for r in rs):
                return True
            return None if any(r is None for r in rs) else False
        return None

    def vertex(self, f, v, k, h):
        """truth of f for a vertex v of the colour k and for a vertex of another colour"""
        fs = self.hull(h)
        eqs = {}
        for at in atoms(f):
            if at.op != "op" or at.a[0] not in ("f==", "=="):
                return None, None
            for x, y in ((at.a[1], at.a[2]), (at.a[2], at.a[1])):
                if x.op == "pc" and x.a[0] is h and x.a[1] is v and num(x.a[2]) is not None:
                    c = int(num(x.a[2]))
                    b, e = fs[c]
                    if self.K(subst(e, {b: k})) is self.K(y):
                        eqs[c] = at
                    break
        if len(eqs) != len(atoms(f)):
            return None, None
        same = beval(f, lambda a: True)
        alleq = And(*[lit(a) for a in eqs.values()])
        if len(eqs) < len(fs):
            # other colours may agree in the compared components
            r = beval(f, lambda a: None)
            return same, r
        d1, d2 = And(f, Not(alleq)), Or(f, alleq)
        other = False if d1 is FALSE else True if d2 is TRUE else None
        return same, other


def free(t):
    s = set()
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "bv":
            s.add(x)
        st += [y for y in x.a if type(y) is T]
    return s


def success(r, tag, variant):
    return mapl(r, lambda x: (TRUE if x.a[1] == variant else FALSE) if x.op == "agg" and x.a[0] == tag else lit(mk("unknownresult", x)))


def run():
    c = Check("C15", "the condition under which each operation succeeds, as a decision diagram over its comparisons, agrees with the "
              "required one for every combination of palette size, redundant colour, repeated colour, new palette size and channel")

    def go():
        P = Pipe()
        for i, wb in enumerate(P.winst()[:1]):
            one_(c, P, i)
    pipe.run(go, c)
    return c.finish()


def one_(c, P, i):
    A = P.app
    S = Palettes(A.pal)
    try:
        st, w, r = P.decomp(i)
        f = success(r, "Result", 0)
        c.count("result conditions")
        c.count("comparisons", len(atoms(f)))
        for n in range(0, 10):
            for nonv in (False, True):
                for rep_ in (False, True):
                    if n < 2 + nonv + rep_ and (nonv or rep_):
                        continue
                    want = n >= 4 and not nonv and not rep_
                    got = S.truth(f, n, nonv, rep_)
                    where = "%s colours%s%s" % (n if n < 6 else "many", ", one no hull vertex" if nonv else "", ", one repeated" if rep_ else "")
                    if got is None:
                        c.unk("palette", where, "comparisons not understood: " + "; ".join(show(a, 4)[:150] for a in atoms(f)))
                    else:
                        c.decide(got == want, "palette", where, "a palette with %s is %s" % (where, "accepted" if got else "rejected"))
    except Missing as e:
        c.unk("palette", "DecomposedImage::new", str(e))
    for name, get, var_, rel in (("reconstruct", P.reconstruct, mk("len", A.pal2), lambda m, n: m == n),
                                 ("get_channel_grayscale", P.gray, A.chan, lambda m, n: m < n)):
        try:
            f = success(get(i), "Option", 1)
        except Missing as e:
            c.unk("argument", name, str(e))
            continue
        c.count("result conditions")
        for n in range(4, 8):
            for m in range(0, 10):
                want = rel(m, n)
                got = S.truth(f, n, False, False, {var_: m}.items())
                where = "%s: %s" % (name, "equal" if m == n else "one less" if m == n - 1 else "one more" if m == n + 1 else "less" if m < n else "more")
                if got is None:
                    c.unk("argument", where, "; ".join(show(a, 4)[:150] for a in atoms(f)))
                else:
                    c.decide(got == want, "argument", where, "with %d channels and argument %d the result is %s" % (n, m, "present" if got else "absent"))
