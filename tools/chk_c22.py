"""C22: image sizes never overflow on the way to a buffer length."""
from common import Check
import vbuild, pipe, capi
from vbuild import REPO
from eng import normkey, bits_

DIM, PROD = 1, 2       # an image dimension or coordinate; a product of dimensions
DIMS = ("width", "height", "dimensions", "bounds")
PASS = ("max", "min", "clamp", "from", "into", "try_from", "try_into", "unwrap", "expect", "unwrap_or", "unwrap_or_default", "branch", "clone", "ok", "deref",
        "unwrap_or_else", "to_owned", "abs_diff", "wrapping_add", "saturating_sub", "wrapping_sub", "checked_add", "saturating_add")
MULS = ("mul", "wrapping_mul", "checked_mul", "saturating_mul", "overflowing_mul", "unchecked_mul", "pow", "checked_pow", "wrapping_pow", "saturating_pow",
        "next_multiple_of")


def bits(t):
    return bits_(t["w"]) if t and t["k"] in ("int", "uint") else None


class Flow:
    """Which values of the given functions are image dimensions or products of them (flow-insensitive, interprocedural, by field)."""

    def __init__(self, d, bodies):
        self.d, self.types = d, d["types"]
        self.bodies = {b["id"]: b for b in bodies}
        self.lv = {}           # (body, local) or (type, field) -> level
        self.changed = True
        self.muls = []
        self.casts = []
        self.calls = []

    def put(self, k, n):
        if n > self.lv.get(k, 0):
            self.lv[k] = n
            self.changed = True

    def ty(self, i):
        return self.types[i] if isinstance(i, int) else None

    def seed(self, b):
        """the u32 parameters of the C interface are dimensions"""
        if b["name"].startswith("vharness::c_lib::") and b.get("sym") == b["name"].split("::")[-1]:
            for i in range(1, b["argc"] + 1):
                t = self.ty(b["locals"][i])
                if t["k"] == "uint" and t["w"] == "u32":
                    self.put((b["id"], i), DIM)

    def field(self, b, pl):
        """the (type, field) that a place reads last, when it belongs to a structure or closure of the workspace"""
        t = self.ty(b["locals"][pl[0]])
        key = None
        for e in pl[1]:
            if t is None:
                return None
            if e == "*":
                t = self.ty(t["e"]) if t["k"] in ("ref", "ptr") else self.ty(t["a"][0]) if t["k"] == "adt" and t["a"] else None
            elif e[0] == "f":
                if t["k"] == "closure":
                    key = ("closure", t["inst"], e[1])
                elif t["k"] == "adt" and self.own(t):
                    key = (t["n"], e[1])
                else:
                    key = None
                t = self.ty(e[2])
            elif e[0] in ("i", "ci"):
                t = self.ty(t.get("e")) if t["k"] in ("array", "slice") else None
                key = None
            elif e[0] in ("dc",):
                pass
            else:
                return None
        return key

    def own(self, t):
        n = t["n"]
        return n.startswith(("image_palette_recoloring", "vharness")) or t.get("c") in ("image_palette_recoloring", "vharness")

    def place(self, b, pl):
        k = self.field(b, pl)
        if k is not None:
            return self.lv.get(k, 0)
        if pl[1] and any(isinstance(e, list) and e[0] in ("i", "ci", "sub") for e in pl[1]):
            return 0
        return self.lv.get((b["id"], pl[0]), 0)

    def op(self, b, o):
        return self.place(b, o[1]) if o[0] in ("c", "m") else 0

    def optype(self, b, o):
        if o[0] == "k":
            return self.ty(o[1])
        t = self.ty(b["locals"][o[1][0]])
        for e in o[1][1]:
            if t is None:
                return None
            if e == "*":
                t = self.ty(t["e"]) if t["k"] in ("ref", "ptr") else None
            elif e[0] == "f":
                t = self.ty(e[2])
            elif e[0] == "dc":
                pass
            else:
                t = None
        return t

    def store(self, b, pl, n):
        if not n:
            return
        k = self.field(b, pl)
        self.put(k if k is not None else (b["id"], pl[0]), n)

    def rvalue(self, b, r, last):
        k = r[0]
        if k in ("bin", "cbin"):
            x, y = self.op(b, r[2]), self.op(b, r[3])
            p = r[1]
            if p.startswith("Mul"):
                if last and (x or y):
                    self.muls.append((b, self.optype(b, r[2]), x, y, r))
                return PROD if x and y else (max(x, y))
            if p.startswith(("Add", "Sub")):
                return max(x, y)
            if p in ("Div", "Rem"):
                return DIM if x else 0
            if p.startswith(("Shl", "BitOr")):
                return max(x, y)
            return 0
        if k == "cast":
            n = self.op(b, r[2])
            if last and n:
                self.casts.append((b, self.optype(b, r[2]), self.ty(r[3]), n))
            return n
        if k in ("ref", "addr"):
            return self.place(b, r[2])
        if k == "agg":
            h = r[1]
            if h[0] == "adt" and self.own(self.ty(h[1])):
                for i, o in enumerate(r[2]):
                    self.put((self.ty(h[1])["n"], i), self.op(b, o)) if self.op(b, o) else None
                return 0
            if h[0] == "closure":
                for i, o in enumerate(r[2]):
                    n = self.op(b, o)
                    if n:
                        self.put(("closure", self.ty(h[1])["inst"], i), n)
                return 0
            if h[0] in ("tuple", "adt"):
                return max([self.op(b, o) for o in r[2]] + [0])
            return 0
        for o in r[1:]:
            if isinstance(o, list) and o and o[0] in ("c", "m"):
                return self.op(b, o)
        return 0

    def call(self, b, t, last):
        callee, args, dest = t[1], t[2], t[3]
        ns = [self.op(b, o) for o in args]
        if callee.get("i") in self.bodies:
            c = self.bodies[callee["i"]]
            for i, n in enumerate(ns):
                if n and i + 1 <= c["argc"]:
                    self.put((c["id"], i + 1), n)
            self.store(b, dest, self.lv.get((c["id"], 0), 0))
            return
        key = normkey(callee.get("p") or "")
        m = key.split("::")[-1]
        if m in DIMS:
            self.store(b, dest, DIM)
        elif m in MULS and any(ns):
            if last:
                self.calls.append((b, self.optype(b, args[0]), ns, key))
            self.store(b, dest, PROD if sum(1 for n in ns if n) > 1 or m.endswith("pow") else max(ns))
        elif m in PASS and any(ns):
            self.store(b, dest, max(ns))
        elif m in ("map", "and_then", "zip") and any(ns):
            self.store(b, dest, 0)

    def round(self, last=False):
        for b in self.bodies.values():
            for bl in b["blocks"]:
                for s in bl["s"]:
                    if s[0] == "=":
                        self.store(b, s[1], self.rvalue(b, s[2], last))
                t = bl["t"]
                if t and t[0] == "call" and t[3] is not None:
                    self.call(b, t, last)

    def solve(self):
        for b in self.bodies.values():
            self.seed(b)
        while self.changed:
            self.changed = False
            self.round()
        self.round(True)


def fn(b):
    return b["name"].split("<")[0].rstrip(":") if not b["name"].startswith("<") else b["name"][:80]


def narrow(t):
    n = bits(t)
    return n is not None and n < 64


def run():
    c = Check("C22", "interprocedural dataflow of image dimensions over the MIR of the application, C and command-line crates: every product with "
              "a dimension is taken at 64 bits (pointer width), and no product of dimensions is converted to a narrower type; the "
              "lengths of slices made from the caller's bytes equal the exact product")

    def go():
        d = vbuild.mir(wasm=True)
        bs = [b for b in d["bodies"] if b["file"].startswith((REPO + "/image-palette-recoloring/", REPO + "/image-palette-recoloring-c/",
                                                               REPO + "/image-palette-recoloring-cli/"))]
        f = Flow(d, bs)
        f.solve()
        c.count("functions", len(bs))
        c.count("values that are dimensions", sum(1 for v in f.lv.values() if v == 1))
        c.count("values that are products", sum(1 for v in f.lv.values() if v == 2))
        for b, t, x, y, r in f.muls:
            k = [o for o in r[2:4] if o[0] == "k"]
            if t is not None and t["k"] == "float":
                continue
            if narrow(t) and not (k and k[0][2].get("v") in (0, 1)):
                c.bad("product", fn(b), "an image dimension is multiplied as %s" % t["w"])
            else:
                c.ok("product", fn(b), t["s"] if t else "")
        for b, t, ns, key in f.calls:
            if t is not None and t["k"] in ("ref", "ptr"):
                t = f.ty(t["e"])
            if narrow(t):
                c.bad("product", fn(b), "an image dimension is multiplied as %s by %s" % (t["w"], key.split("::")[-1]))
            else:
                c.ok("product", fn(b), key)
        for b, s, t, n in f.casts:
            if n < PROD or t is None or s is None:
                continue
            if s["k"] in ("int", "uint") and narrow(t) and (bits(s) or 0) > bits(t):
                c.bad("conversion", fn(b), "a product of image dimensions is converted from %s to %s" % (s["w"], t["w"]))
            elif t["k"] == "float" and t["w"] == "f32":
                c.bad("conversion", fn(b), "a product of image dimensions is converted to f32")
            else:
                c.ok("conversion", fn(b), "%s to %s" % (s["s"], t["s"]))
        lengths(c, d)
    pipe.run(go, c)
    return c.finish()


def lengths(c, d):
    import chk_c06
    for b in capi.functions(d):
        try:
            f = capi.Fn(d, b)
        except Exception as e:
            c.unk("length", b["sym"], str(e)[:100])
            continue
        for l in f.log:
            if l[0] == "fits":
                c.count("slices of the caller's bytes")
        keep = Lengths(c)
        chk_c06.img(keep, f, None)
        if b["sym"] in chk_c06.OUTPUTS:
            chk_c06.output(keep, f, *chk_c06.OUTPUTS[b["sym"]])


class Lengths:
    """passes on what is decided about buffer lengths"""

    def __init__(self, c):
        self.c = c

    def ok(self, kind, *a):
        if kind in ("input", "length"):
            self.c.ok(kind, *a)

    def bad(self, kind, *a):
        if kind in ("input", "length"):
            self.c.bad(kind, *a)

    def unk(self, kind, *a):
        if kind in ("input", "length"):
            self.c.unk(kind, *a)

    def decide(self, cond, kind, *a, **k):
        if kind in ("input", "length"):
            self.c.decide(cond, kind, *a, **k)

    def count(self, *a):
        pass
