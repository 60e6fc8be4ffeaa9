"""The application analysed as it is used: weights of an image, decomposition, channels, reconstruction, palette.

Terms are computed once per process; every rule asks this module for the term of an observable result."""
import sys, threading
import vbuild, geo
from geo import *
from terms import *
from eng import index, iadd, imul, ilt, eq, cast, seq, one, EMPTY, length, isub
import eng, models, canon


def run(f, c=None):
    """f() on a thread with a stack for deep terms; an internal error leaves the rest undecided"""
    sys.setrecursionlimit(1000000)
    threading.stack_size(512 * 1024 * 1024)
    out = []

    def go():
        try:
            f()
        except vbuild.BuildError as e:
            out.append(e)
        except BaseException as e:
            import traceback
            t = traceback.format_exc()
            if c is None or not c.obl:
                out.append(e)
            else:
                c.unk("analysis", "internal error", t[-300:])
            sys.stdout.write(t[-3000:])
    t = threading.Thread(target=go)
    t.start()
    t.join()
    if out:
        raise out[0]


class Missing(Exception):
    """a result that the analysis could not describe"""


class Pipe:
    def __init__(self, dump=None):
        self.dump = dump or vbuild.mir()
        self.app = geo.App(self.dump)
        self.I = self.app.I
        self._c = {}

    def memo(self, k, f):
        if k not in self._c:
            try:
                v = f()
                self._c[k] = (tuple(canon.alpha(x) if type(x) is T else x for x in v) if type(v) is tuple else canon.alpha(v), None)
            except (eng.Abort, Missing, RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError) as e:
                self._c[k] = (None, "%s: %s" % (type(e).__name__, str(e)[:200]))
        v, e = self._c[k]
        if e is not None:
            raise Missing(e)
        return v

    # ------------------------------------------------ operations
    def winst(self):
        return self.app.bodies("ImageWeights::new")

    def pinst(self):
        return self.app.bodies("compute_palette")

    def body(self, name):
        bs = self.app.bodies(name)
        if not bs:
            raise Missing("no function " + name)
        return bs[0]

    def weights(self, i=0):
        return self.memo(("w", i), lambda: self.app.weights(self.winst()[i]))

    def decomp(self, i=0):
        """(state, weights, result term)"""
        return self.memo(("d", i), lambda: self.app.decomposed(self.winst()[i]))

    def D(self, i=0):
        """the decomposed image of the success case"""
        st, w, r = self.decomp(i)
        o = [x for x in leaves(r) if x.op == "agg" and x.a[0] == "Result" and x.a[1] == 0]
        if len(o) != 1:
            raise Missing("decomposition success values: %d" % len(o))
        return st, o[0].a[2]

    def method(self, name, recv, args, i=0):
        st, D = self.D(i)
        v = D if recv == "D" else self.weights(i)[1]
        return self.memo((name, i), lambda: self.app.run(self.body(name), [vr(v)] + args, st.clone()))

    def reconstruct(self, i=0):
        return self.method("DecomposedImage::reconstruct", "D", [vr(self.app.pal2)], i)

    def gray(self, i=0):
        return self.method("DecomposedImage::get_channel_grayscale", "D", [self.app.chan], i)

    def palette(self, i=0):
        def f():
            return self.app.run(self.pinst()[i], [vr(self.app.img), var("min"), var("max"), var("bound")], St())
        return self.memo(("p", i), f)

    # ------------------------------------------------ results
    def some(self, t):
        o = [x for x in leaves(t) if x.op == "agg" and x.a[0] == "Option" and x.a[1] == 1]
        if len(o) != 1:
            raise Missing("success values: %d" % len(o))
        return o[0].a[2]

    def rec_image(self, i=0):
        return image(self.some(self.reconstruct(i)))

    def gray_image(self, i=0):
        return image(self.some(self.gray(i)))

    def pal_colour(self, i=0):
        """(components of the colour at a position of the palette, count)"""
        p = self.palette(i)
        return colour_at(p)


def comps(v):
    """the components of a pixel value"""
    while v.op in ("vr",) or v.op == "agg" and v.a[0] in ("image::Rgb", "image::Luma", "Rgb", "Luma") and len(v.a) == 3:
        v = v.a[0] if v.op == "vr" else v.a[2]
    if is_arr(v):
        return list(v.a[2:])
    if v.op == "ite":
        ls = [comps(x) for x in leaves(v)]
        if any(l is None for l in ls) or len(set(map(len, ls))) != 1:
            return None
        return [mapl(v, lambda x, c=c: comps(x)[c]) for c in range(len(ls[0]))]
    return None


def colour_at(p):
    """what a palette (sequence of colours) holds at a position"""
    if p.op == "ite":
        r = [colour_at(x) for x in leaves(p)]
        if len(r) == 1:
            return r[0]
        raise Missing("palette with several forms")
    if p.op == "seq" and p.a[0] is EMPTY and len(p.a) == 2 and p.a[1].op == "rep" and p.a[1].a[0] == 1 and len(p.a[1].a) == 4:
        o = p.a[1].a[3]
        if o.op == "one":
            c = comps(o.a[1])
            if c:
                return c
    raise Missing("palette " + show(p, 3)[:200])


class Image:
    """width, height, component terms and the position (x, y) that they belong to, over bound variables ks"""

    def __init__(self, w, h, cs, x, y, ks):
        self.w, self.h, self.cs, self.x, self.y, self.ks = w, h, cs, x, y, ks


def image(im):
    if im.op == "vr":
        im = im.a[0]
    if im.op == "wrs" and im.a[0].op == "imgset" and len(im.a) == 2:
        b = im.a[0].a[0]
        ws = nest(im.a[1])
        if ws is None or len(ws[1]) != 1 or ws[1][0].op != "w":
            raise Missing("image writes")
        ks, (w,) = ws
        i = w.a[1]
        c = comps(w.a[2])
        if c is None or not (i.op == "agg" and len(i.a) == 4):
            raise Missing("pixel value")
        return Image(b.a[0], b.a[1], c, i.a[2], i.a[3], ks)
    if im.op == "imgset":
        im = im.a[0]
    if im.op == "imgbuf":
        w, h, data, n = im.a
        if data.op == "pixfn":
            x, y = data.a[1], data.a[2]
            c = comps(data.a[3])
            if c is None:
                raise Missing("pixel function")
            return Image(w, h, c, x, y, [(x, None), (y, None)])
        if data.op == "seq" and data.a[0] is EMPTY and len(data.a) == 2:
            r = nest(data.a[1])
            if r is not None and n and len(r[1]) == n and all(o.op == "one" for o in r[1]):
                ks, os = r
                k = ks[0][0]
                for v, c in ks[1:]:
                    k = iadd(imul(k, c), v)
                wu = cast(w, "u32", "usize")
                return Image(w, h, [o.a[1] for o in os], eng.i2("%", k, wu, "usize") if hasattr(eng, "i2") else models.i2("%", k, wu, "usize"),
                             models.i2("/", k, wu, "usize"), ks)
    raise Missing("image " + show(im, 3)[:200])


def nest(r):
    """([(variable, count)..], items) of a repetition, with nested repetitions unfolded"""
    if r.op != "rep" or r.a[0] != 1:
        return None
    k, g, items = r.a[1], r.a[2], list(r.a[3:])
    if len(items) == 1 and items[0].op == "rep":
        q = nest(items[0])
        if q is None:
            return None
        return [(k, g.a[0])] + q[0], q[1]
    return [(k, g.a[0])], items
