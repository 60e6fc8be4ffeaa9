"""C19: the web worker frees every buffer it allocates, once, with its size."""
from common import Check
import web
from web import *


def run():
    c = Check("C19", "path-sensitive typestate over the worker's syntax tree: on every path of every request (each computing wasm call may return, "
              "report failure or throw) each buffer is live until it is freed once, at its address and with the size (compared as polynomials) it was "
              "made with; a view of the memory is used only while no call after its making may have grown the memory and its buffer is live")
    c.assumptions += ["allocation, free and size queries of the wasm module do not throw; the five computing functions may",
                      "while the worker awaits something, other requests may run and grow the memory"]
    res = {}

    def report(kind, what, where, detail):
        res.setdefault((kind, what, where), detail)
    w = Worker(report)
    try:
        w.start()
    except Abort as e:
        c.unk("worker analysed", w.file, str(e))
        return c.finish()
    n = 0
    for m in sorted(w.strings):
        try:
            quiet = w.request(m, quiet=True)
        except Abort as e:
            c.unk("request analysed", m, str(e))
            continue
        if not any(True for _, _, st in quiet for e in libs_of(st.log)):
            continue
        n += 1
        paths = w.request(m)
        w.where = "request " + m
        for comp, v, st in paths:
            c.count("paths")
            for k, b in st.ts.items():
                if not (isinstance(k, tuple) and k[0] == "buf"):
                    continue
                c.count("buffers")
                if b[0] == "freed":
                    report("ok", "buffer freed on every path", w.where, "")
                    continue
                how = "when %s throws" % st.ts["threw"] if "threw" in st.ts else "when it throws" if comp == "throw" else "when it answers %s" % "/".join(
                    r[0] for r in st.ts.get("replies", ()))
                report("unk" if st.unsure else "bad", "buffer never freed", w.where, "the buffer of %s (size %s) is not freed %s %s" % (b[2], show(b[1]), how, st.unsure))
    badk = {(what, where) for (kind, what, where) in res if kind == "bad"}
    for (kind, what, where), detail in sorted(res.items(), key=repr):
        if kind == "ok":
            if what == "buffer freed on every path" and ("buffer never freed", where) in badk:
                continue
            c.ok(what, where, detail)
        elif kind == "bad":
            c.bad(what, where, detail)
        else:
            c.unk(what, where, detail)
    c.count("requests", n)
    c.count("functions", len(w.fn_seen))
    if not n:
        c.unk("requests found", w.file, "no request reaches the library")
    return c.finish()
