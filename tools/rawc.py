"""The qhull wrappers analysed function by function: results, foreign calls with their conditions, writes, drop glue."""
import re
import vbuild, geo, models, eng
from terms import *
from eng import Interp, St, Abort, index, imul, iadd, cast, length, normkey, vr, is_arr, agg


def drop_(I, st, fr, b, t, n):
    g = t[6] if len(t) > 6 else None
    if g is not None and g in I.bodies and RAWTY.search(I.bodies[g]["name"]):
        I.run(I.bodies[g], [I.place_ref(st, fr, t[1])], st, mk("fr", fr, "drop", n))


RAWTY = re.compile(r"drop_glue::<qhull_rs::Raw(Hull|Delaunay)<")


def copy_(cx):
    a, b, n = cx.args
    if cx.last.startswith("copy_from"):
        a, b = b, a
    src = a
    while src.op in ("ref", "vr"):
        src = cx.load(src)
    t = cx.I.ty(cx.gargs[0]) if cx.gargs and isinstance(cx.gargs[0], int) else None
    s = size(cx.I, cx.gargs[0]) if t is not None else None
    if b.op == "ref" and not (b.a[0].op == "loc" and b.a[0].a[0] == "g"):
        return NotImplemented
    dst = b.a[0].a[1] if b.op == "ref" else b
    cx.I.log.append(("foreign", cx.st.pc, "libc::memcpy", [dst, vr(src), imul(n, const(s, "int"))] if s else [dst, vr(src), mk("bytes?", n)], UNIT))
    return UNIT


def size(I, i):
    """bytes of a value of the type; nalgebra's statically sized matrices are their components in a row"""
    t = I.ty(i)
    m = re.match(r"^nalgebra::Matrix<f64, nalgebra::Const<(\d+)>, nalgebra::Const<(\d+)>, nalgebra::ArrayStorage<f64, (\d+), (\d+)>>$", t["s"])
    if m:
        return 8 * int(m.group(1)) * int(m.group(2))
    if t["k"] == "array" and t.get("n") is not None:
        s = size(I, t["e"])
        return None if s is None else s * t["n"]
    return models.sizeof(I, i)


def sizeof_(cx):
    s = size(cx.I, cx.gargs[0]) if cx.gargs and isinstance(cx.gargs[0], int) else None
    return NotImplemented if s is None else const(s, "int")


def sizeofval(cx):
    """bytes of a slice or value behind a reference"""
    t = cx.I.ty(cx.gargs[0]) if cx.gargs and isinstance(cx.gargs[0], int) else None
    if t is None:
        return NotImplemented
    if t["k"] == "slice":
        s = size(cx.I, t["e"])
        v = cx.args[0]
        while v.op in ("ref", "vr"):
            v = cx.load(v)
        return NotImplemented if s is None else imul(length(v), const(s, "int"))
    return sizeof_(cx)


MODELS = dict(geo.MODELS)
MODELS["!drop"] = drop_
for _n in ("std::ptr::copy_nonoverlapping", "std::ptr::copy", "std::ptr::mut_ptr::copy_from", "std::ptr::mut_ptr::copy_from_nonoverlapping",
           "std::ptr::const_ptr::copy_to", "std::ptr::const_ptr::copy_to_nonoverlapping"):
    MODELS[_n] = copy_
MODELS["std::mem::size_of"] = sizeof_
MODELS["std::mem::size_of_val"] = sizeofval


def foreign_(cx):
    """a foreign call: its result is a new value, and what its pointer arguments to local variables point at may change"""
    vs = [cx.pure(a) for a in cx.args]
    name = cx.rkey or cx.key
    v = mk("app", name, len(cx.I.log), *vs) if name.split("::")[-1] not in PURE else mk("app", name, *vs)
    cx.I.log.append(("foreign", cx.st.pc, name, vs, v))
    for i, a in enumerate(cx.args):
        t = cx.I.ty(cx.tys[i]) if cx.tys and cx.tys[i] is not None else None
        if a.op == "ref" and a.a[0].op == "loc" and a.a[0].a[0] != "g" and t is not None and t["k"] == "ptr" and t.get("m"):
            cx.I.store(cx.st, a, mk("out", v, i))
    return v


PURE = {"rqh_get_facet_list", "rqh_get_vertex_list", "rqh_get_last_low", "rqh_get_last_high", "rqh_get_last_newhigh", "rqh_get_NOerrexit",
        "rqh_get_PROJECTdelaunay", "rqh_stdin", "rqh_stdout", "rqh_stderr"}
MODELS["!foreign"] = foreign_


class Run:
    """one function: parameters, result and notes"""

    def __init__(self, dump, b, contracts=None, args=None):
        self.b, self.dump = b, dump
        self.I = I = Interp(dump, dict(MODELS))
        I.logstores = True
        I.contracts = dict(contracts or {})
        self.p = args or [var("p", i, b["name"]) for i in range(b["argc"])]
        self.st = St()
        self.ret = I.run(b, list(self.p), self.st, mk("fr", "c", b["id"]))
        self.pc = self.st.pc
        self.log = I.log

    def foreign(self):
        """[(condition, function, arguments, result)] in order"""
        return [(l[1], l[2].split("::")[-1], l[3], l[4]) for l in self.log if l[0] == "foreign"]

    def stores(self):
        return [(l[1], l[2], l[3], l[4]) for l in self.log if l[0] == "store"]


def short(b):
    n = b["name"].replace("nalgebra::", "")
    if n.startswith("<") and " as " in n:
        return n[1:].split(" as ")[0] + "::" + n.split("::")[-1]
    return n


def rawtype(dump, i):
    """("RawHull"|"RawDelaunay", N) of a type number, or None"""
    t = dump["types"][i]
    m = re.match(r"^qhull_rs::Raw(Hull|Delaunay)<nalgebra::Const<(\d+)>>$", t["s"])
    return ("Raw" + m.group(1), int(m.group(2))) if m else None


def constructors(dump):
    """functions that give out a raw hull or triangulation without being given one, outermost ones only"""
    res = []
    for b in dump["bodies"]:
        if not b["name"].startswith(("qhull_rs::Raw", "<qhull_rs::Raw")) or "{closure" in b["name"]:
            continue
        r = rawtype(dump, b["locals"][0])
        if r is None or any(rawtype(dump, b["locals"][i]) for i in range(1, b["argc"] + 1)):
            continue
        p = dump["types"][b["locals"][1]] if b["argc"] else None
        if p is not None and p["k"] == "ptr":
            continue           # a helper that takes the buffer over
        res.append((b, r))
    return sorted(res, key=lambda x: x[0]["name"])


def strip(v, run):
    """the value behind references"""
    n = 0
    while v.op in ("ref", "vr") and n < 8:
        v = run.I.load(run.st, v)
        n += 1
    return v


def string(v, run):
    v = strip(v, run)
    if v.op == "agg" and is_arr(v):
        bs = [num(x) for x in v.a[2:]]
        if all(isinstance(x, int) for x in bs):
            return bytes(x & 255 for x in bs)
    if v.op == "bytes":
        return v.a[0]
    if v.op == "c" and isinstance(v.a[0], str):
        return v.a[0].encode()
    return None


def cwalk(name, consts):
    """What the C function of the shim does when its parameters at the given places have the given constant values and
    setjmp returns directly: a list of ("call", name, arguments) and ("store", field, base, value), or None if it branches
    on something else. Arguments are ("p", i), integers or ("?", name)."""
    import cside, irflow
    fs = cside.ir_functions(cside.ir("unix64", "src/ext.c", "-O2"))
    if name not in fs:
        return None
    ps, bl, en = fs[name]
    fn = irflow.Fn(name, ps, bl, en)
    env = {"%" + str(p): consts.get(i, ("p", i)) for i, p in enumerate(ps)}
    res = []

    def val(x):
        x = x.strip()
        if re.match(r"^-?\d+$", x):
            return int(x)
        if x in ("true", "false"):
            return int(x == "true")
        if x == "null":
            return 0
        return env.get(x, ("?", x))
    b, prev, seen = en, None, set()
    while True:
        if b in seen or b not in bl:
            return None
        seen.add(b)
        nxt = None
        for i in bl[b]:
            dst, body = None, i
            m = re.match(r"^(%[\w.]+) = (.*)$", i)
            if m:
                dst, body = m.groups()
            if body.startswith("phi"):
                for x, p in re.findall(r"\[ ([^,]+), %([\w.]+) \]", body):
                    if p == prev:
                        env[dst] = val(x)
                continue
            m = re.search(r"\bcall\b[^@]*@([\w.]+)\((.*?)\)(?: #\d+)?(?:,.*)?$", body)
            if m:
                if "setjmp" in m.group(1):
                    env[dst] = 0
                elif not m.group(1).startswith("llvm."):
                    res.append(("call", m.group(1), [val(a.split()[-1]) for a in m.group(2).split(",") if a.strip()]))
                continue
            m = re.match(r"^store \S+ (\S+), ptr (%[\w.]+)", body)
            if m:
                f = fn.field(m.group(2))
                res.append(("store", f[1] if f else None, val(f[0]) if f else None, val(m.group(1))))
                continue
            m = re.match(r"^icmp (eq|ne) \S+ (\S+), (\S+)$", body)
            if m:
                x, y = val(m.group(2)), val(m.group(3))
                if isinstance(x, int) and isinstance(y, int):
                    env[dst] = int((x == y) == (m.group(1) == "eq"))
                continue
            m = re.match(r"^(?:zext|trunc|sext|freeze) \S+ (\S+?)(?: to .*)?$", body)
            if m:
                env[dst] = val(m.group(1))
                continue
            m = re.match(r"^br i1 (\S+), label %([\w.]+), label %([\w.]+)", body)
            if m:
                c = val(m.group(1))
                if not isinstance(c, int):
                    return None
                nxt = m.group(2) if c else m.group(3)
                break
            m = re.match(r"^br label %([\w.]+)", body)
            if m:
                nxt = m.group(1)
                break
            if re.match(r"^(ret|unreachable)", body):
                return res
            if body.startswith("switch"):
                return None
        prev, b = b, nxt


def effects(run):
    """The foreign calls of a function with the shim's build function replaced by what it does:
    [(condition, function, arguments, result)], and the stores through pointers that foreign calls gave."""
    import cside, irflow
    own = set(cside.ir_functions(cside.ir("unix64", "src/ext.c", "-O2")))
    res = []
    for pc, f, args, r in run.foreign():
        if f in own and not f.startswith(("rqh_get_", "rqh_std", "rqh_malloc")):
            consts = {i: num(a) for i, a in enumerate(args) if isinstance(num(a), int)}
            ev = cwalk(f, consts)
            if ev is None:
                res.append((pc, f, args, r))
                continue
            for e in ev:
                if e[0] == "call":
                    res.append((pc, e[1], [args[x[1]] if isinstance(x, tuple) and x[0] == "p" and x[1] < len(args) else
                                           const(x, "int") if isinstance(x, int) else mk("c?", str(x)) for x in e[2]], mk("app", e[1], r)))
                else:
                    res.append((pc, "store:%s" % e[1], [args[e[2][1]] if isinstance(e[2], tuple) and e[2][0] == "p" else mk("c?", str(e[2])),
                                                        const(e[3], "int") if isinstance(e[3], int) else mk("c?", str(e[3]))], UNIT))
            res.append((pc, "result:" + f, args, r))
        else:
            res.append((pc, f, args, r))
    return res
