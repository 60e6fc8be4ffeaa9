"""The C interface analysed function by function: returned values, writes through the caller's pointers, allocations and releases.

The application's operations enter as uninterpreted results of their arguments; what they compute is decided by other rules."""
import vbuild, geo, models, eng
from terms import *
from eng import Interp, St, Abort, index, imul, iadd, cast, length, normkey
from models import follow

APP = "image_palette_recoloring::"
OPS = ("ImageWeights::new", "compute_palette", "DecomposedImage::new", "DecomposedImage::reconstruct", "DecomposedImage::get_channel_grayscale",
       "DecomposedImage::num_channels", "DecomposedImage::width", "DecomposedImage::height", "ImageWeights::width", "ImageWeights::height")


def op_(name):
    def f(cx):
        vs = []
        for a in cx.args:
            while a.op in ("ref", "vr"):
                a = cx.load(a)
            vs.append(cx.pure(a))
        return mk("app", name, *vs)
    return f


def drop_(I, st, fr, b, t, n):
    try:
        v = I.read(st, fr, t[1])
    except Abort:
        return
    I.log.append(("drop", st.pc, v))


def dropfn(cx):
    cx.I.log.append((cx.last, cx.st.pc, cx.args[0]))
    return UNIT


def copy_(cx):
    """copies of a number of bytes between pointers"""
    a, b, n = cx.args
    if cx.last.startswith("copy_from"):
        a, b = b, a
    if b.op == "ref" and not (b.a[0].op == "loc" and b.a[0].a[0] == "g"):
        return NotImplemented
    p = b.a[0].a[1] if b.op == "ref" and len(b.a) == 1 else b
    src = a
    while src.op in ("ref", "vr"):
        src = cx.load(src)
    dst = mk("rawslice", p, n) if p.op != "rawslice" else mk("rawslice", p.a[0], n)
    cx.I.log.append(("copy", cx.st.pc, dst, src, n, n))
    return UNIT


def setmem_(cx):
    """a number of bytes set to one value"""
    a, v, n = cx.args
    if a.op == "ref" and not (a.a[0].op == "loc" and a.a[0].a[0] == "g"):
        return NotImplemented
    p = a.a[0].a[1] if a.op == "ref" and len(a.a) == 1 else a
    cx.I.log.append(("store", cx.st.pc, mk("rawslice", p, n) if p.op != "rawslice" else mk("rawslice", p.a[0], n), (), mk("fill", n, v)))
    return UNIT


def interp(dump):
    m = dict(geo.MODELS)
    m["!drop"] = drop_
    m["std::mem::drop"] = m["std::mem::forget"] = dropfn
    for n in ("std::ptr::copy_nonoverlapping", "std::ptr::copy", "std::ptr::mut_ptr::copy_from", "std::ptr::mut_ptr::copy_from_nonoverlapping",
              "std::ptr::const_ptr::copy_to", "std::ptr::const_ptr::copy_to_nonoverlapping"):
        m[n] = copy_
    for n in ("std::ptr::write_bytes", "std::ptr::mut_ptr::write_bytes", "core::ptr::write_bytes", "core::ptr::mut_ptr::write_bytes"):
        m[n] = setmem_
    I = Interp(dump, m)
    I.logstores = True
    I.contracts = {APP + n: op_(n) for n in OPS}
    return I


class Fn:
    """one exported function: parameters, result, notes and final memory"""

    def __init__(self, dump, b):
        self.b = b
        self.name = b["sym"]
        self.I = I = interp(dump)
        self.params = [var("p", i, b["name"]) for i in range(b["argc"])]
        self.types = [b["locals"][i + 1] for i in range(b["argc"])]
        self.rettype = b["locals"][0]
        self.st = St()
        self.ret = I.run(b, list(self.params), self.st, mk("fr", "c", b["id"]))
        self.log = I.log

    def named(self, i):
        for d in self.b.get("dbg") or []:
            pass
        return self.params[i]

    def writes(self):
        """{pointer: value} stored through pointers that the caller gave"""
        r = {}
        for l, v in self.st.mem.items():
            if l.a[0] == "g":
                r[l.a[1]] = v
        return r


def functions(dump):
    return sorted([b for b in dump["bodies"] if b["name"].startswith("vharness::c_lib::") and "{closure" not in b["name"] and b.get("sym") == b["name"].split("::")[-1]],
                  key=lambda b: b["name"])
