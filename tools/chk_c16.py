"""C16: results do not depend on hash iteration order."""
import re
from common import Check
import pipe
from pipe import *
from order import Order

ITER = re.compile(r"hash::(map|set)::|HashMap|HashSet|hash_map|hash_set")
METH = {"iter", "iter_mut", "keys", "values", "values_mut", "into_iter", "into_keys", "into_values", "drain", "retain", "extract_if", "difference",
        "union", "intersection", "symmetric_difference"}
RAND = re.compile(r"^(std::time::|rand::|getrandom::|fastrand::|std::thread::current|std::process::id)")


def run():
    c = Check("C16", "dependence of every result's value-flow term on the arbitrary numbering of hash map entries: an ordered operation "
              "(sequence, floating-point sum, first match, general loop) over entries passes the order on; order-insensitive ones, loops that "
              "only change the entry they are at and sorting by a key that tells all entries apart do not")

    def go():
        P = Pipe()
        for i, b in enumerate(P.pinst()):
            term(c, "compute_palette", b["name"].split("::", 1)[-1], lambda: P.palette(i))
        for i, b in enumerate(P.winst()):
            n = b["name"].split("::", 1)[-1]
            term(c, "ImageWeights::new", n, lambda: P.weights(i)[1])
            term(c, "ImageWeights::decompose", n, lambda: P.decomp(i)[2])
            term(c, "DecomposedImage::reconstruct", n, lambda: P.reconstruct(i))
            term(c, "DecomposedImage::get_channel_grayscale", n, lambda: P.gray(i))
        scan(c, P)
    pipe.run(go, c)
    return c.finish()


def term(c, name, inst, get):
    try:
        t = get()
    except Missing as e:
        c.unk("result", "%s for %s" % (name, inst), str(e))
        return
    O = Order()
    d = O.dep(t)
    c.count("results")
    c.count("hash maps whose entries are used", len(O.maps))
    for s, (v, why) in O.sorts.items():
        c.count("sorted sequences")
        if v is None:
            c.unk("sort", name, why)
        elif v:
            c.ok("sort", name, "the key tells all entries apart")
    if "G" in d:
        why = sorted(set(O.why.values()))
        if any(v is None for v, _ in O.sorts.values()):
            c.unk("result", name, "; ".join(why))
        else:
            c.bad("result", name, "depends on hash iteration order: " + "; ".join(why)[:400])
    elif d:
        c.unk("result", "%s for %s" % (name, inst), "order %s" % sorted(map(str, d))[:5])
    else:
        c.ok("result", "%s for %s" % (name, inst))


def scan(c, P):
    """functions outside of these results (tables of hulls and triangulations): no iteration over hash maps, no clock or random source"""
    n = 0
    for b in P.dump["bodies"]:
        if not re.search(r"qhull_rs::|image_palette_recoloring", b["name"]):
            continue
        if b["name"].startswith(("std::", "core::", "alloc::", "<std::", "<core::")):
            continue
        n += 1
        for bl in b["blocks"]:
            t = bl["t"]
            if not t or t[0] != "call" or type(t[1]) is not dict:
                continue
            p = t[1].get("p") or ""
            if RAND.search(p):
                c.bad("source", b["name"], "calls " + p)
    c.count("functions scanned for clocks and random sources", n)
    c.ok("source", "no clock or random source in %s" % "the library")
    qi = []
    for b in P.dump["bodies"]:
        if "qhull_rs" not in b["name"].split("<")[0] and "qhull_rs::" not in b["name"]:
            continue
        for bl in b["blocks"]:
            t = bl["t"]
            if not t or t[0] != "call" or type(t[1]) is not dict:
                continue
            callee = t[1]
            p = callee.get("p") or callee.get("op") or ""
            m = p.rsplit("::", 1)[-1]
            if m in METH and ITER.search(p + " " + (callee.get("r") or "")) and not re.search(r"hash_map::(IntoIter|Iter|Drain)", p):
                qi.append((b["name"], p))
    if qi:
        for f, p in sorted(set(qi)):
            c.unk("table", f, "iterates over a hash map with " + p)
    else:
        c.ok("table", "qhull_rs", "no iteration over a hash map")
