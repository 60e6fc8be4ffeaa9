"""C12: colour values keep one scale from end to end."""
from common import Check
import pipe
from pipe import *
from scale import Scale


def run():
    c = Check("C12", "every value-flow term is given the power of 255 that its scale stands for (bytes 1, 0-1 components and weights 0); sums, "
              "comparisons, limits, alternatives and points looked up in a triangulation must agree, every byte of a result is converted "
              "from a value of power 1 by a saturating conversion, and palette components are rounded")

    def go():
        P = Pipe()
        for i, b in enumerate(P.winst()):
            inst = b["name"].split("::", 1)[-1]
            for name, get in (("reconstruct", lambda: P.rec_image(i).cs), ("get_channel_grayscale", lambda: P.gray_image(i).cs)):
                result(c, P, "DecomposedImage::" + name, inst, get)
        for i, b in enumerate(P.pinst()):
            inst = b["name"].split("::", 1)[-1]
            result(c, P, "compute_palette", inst, lambda: P.pal_colour(i), True)
    pipe.run(go, c)
    return c.finish()


def result(c, P, name, inst, get, rounded=False):
    try:
        cs = get()
    except Missing as e:
        c.unk("result", name + " for " + inst, str(e))
        return
    c.count("results")
    S = Scale({P.app.pal, P.app.pal2})
    S.hulls = list({x for t in cs for x in find(t, lambda x: x.op == "hull")})
    for k, t in enumerate(cs):
        for x in leaves(t):
            output(c, S, name, inst, k, x, rounded)
        S.conds(t)
    for k, d in S.bad.items():
        c.bad("scale", "%s: %s" % (name, k), d)
    for k, d in S.und.items():
        c.unk("scale", "%s: %s for %s" % (name, k, inst), d)
    c.ok("scale", name + " for " + inst, "%d operations agree" % len(S.good))
    c.count("operations with matching scales", len(S.good))
    if S.unknown:
        c.unk("scale", name + " for " + inst, "not described: %s" % sorted(map(str, S.unknown))[:5])


def output(c, S, name, inst, k, x, rounded):
    where = "%s component %d" % (name, k)
    chain = []
    while x.op == "cast" and x.a[1] not in ("f64", "f32"):
        chain.append((x.a[0], x.a[1]))
        x = x.a[2]
    if x.op == "c":
        c.ok("output", where + " for " + inst, "constant")
        return
    if not chain or chain[-1][0] not in ("f64", "f32"):
        c.unk("output", where + " for " + inst, "not a conversion from a float: " + show(x, 3)[:150])
        return
    if chain[0][1] != "u8":
        c.unk("output", where + " for " + inst, "conversion %s" % chain)
        return
    if len(chain) > 1 and not limited(x):
        c.bad("conversion", where, "converted through %s without being limited to 0..255, so that larger values wrap around" %
              " -> ".join([chain[-1][0]] + [q[1] for q in reversed(chain)]))
    else:
        c.ok("conversion", where + " for " + inst, "saturating or limited")
    d = S.deg(x)
    if d == 1:
        c.ok("output", where + " for " + inst, "0-255 scale")
    elif d is None or type(d) is not int:
        c.unk("output", where + " for " + inst, "scale not determined: " + show(x, 3)[:150])
    else:
        c.bad("output", where, "a value of scale 255^%s is stored as a byte" % d)
    if rounded:
        r = rounding(x)
        if r is False:
            c.bad("rounding", where, "converted to a byte without rounding: " + show(x, 3)[:150])
        elif r is None:
            c.unk("rounding", where + " for " + inst, show(x, 3)[:150])
        else:
            c.ok("rounding", where + " for " + inst)


def limited(x):
    while x.op == "op" and x.a[0] in ("fround", "ffloor", "fceil", "ftrunc"):
        x = x.a[1]
    if x.op == "op" and x.a[0] == "fclamp":
        return num(x.a[2]) is not None and num(x.a[3]) is not None and num(x.a[2]) >= 0 and num(x.a[3]) <= 255
    if x.op == "op" and x.a[0] in ("fmin", "fmax"):
        return any(q.op == "c" and 0 <= num(q) <= 255 for q in x.a[1:]) and any(
            y.op == "op" and y.a[0] in ("fmin", "fmax") and y.a[0] != x.a[0] for y in x.a[1:])
    return False


def rounding(x):
    if x.op == "ite":
        rs = [rounding(y) for y in leaves(x)]
        return False if False in rs else None if None in rs else True
    if x.op == "c":
        return True
    if x.op != "op":
        return False if x.op in ("pc", "lpval", "idx") else None
    p = x.a[0]
    if p == "fround":
        return True
    if p in ("fmin", "fmax", "fclamp"):
        return rounding(x.a[1]) if x.a[1].op != "c" else rounding(x.a[2])
    if p == "f+" and any(num(y) == 0.5 for y in x.a[1:]):
        return True
    if p in ("ffloor", "ftrunc"):
        return rounding(x.a[1])
    if p == "fceil":
        return False
    if p == "f-" and num(x.a[2]) == 0.5:
        return False
    if p in ("f*", "f/"):
        return False
    return None
