"""C05: the published C header matches the exported functions."""
import os
import cside, vbuild
from common import Check
from rtypes import RTypes

HDR = os.path.join(vbuild.REPO, "image-palette-recoloring-c/image-palette-recoloring.h")


def run():
    c = Check("C05", "the declarations clang sees in the header are compared one by one with the exported (unmangled) functions of the "
              "C crate as rustc type-checked them")
    mir = vbuild.mir()
    c.assumptions = ["an exported function is one rustc gives its own name as its symbol (no_mangle or export_name)"]
    for target, ptr in (("unix64", 8), ("wasm32", 4)):
        tree = cside.ast(target, HDR, ["-x", "c", "-Wno-pragma-once-outside-header"])
        sigs, ct = cside.signatures(target, HDR, ["-x", "c"])
        local = set()
        for n in tree["inner"]:
            loc = n.get("loc", {})
            if n["kind"] == "FunctionDecl" and not n.get("isImplicit"):
                local.add(n["name"])
        rt = RTypes(mir["types"], ptr)
        exp = {}
        for b in mir["bodies"]:
            if b["name"].startswith("vharness::c_lib::") or b["name"].startswith("c_lib::") or "c_lib::" in b["name"]:
                if b["abi"] == "closure" or "{closure" in b["name"]:
                    continue
                # symbols chosen by the programmer are not mangled
                if not b["sym"].startswith("_ZN") and not b["sym"].startswith("_R"):
                    exp[b["sym"]] = b
        long = "i64" if ptr == 8 else "i32"
        for n, (cr, cp, cv) in sorted(sigs.items()):
            if n not in local:
                continue
            w = "%s:%s" % (target, n)
            c.count("declarations")
            if n not in exp:
                c.bad("exported", w, "declared in the header, not exported by the crate")
                continue
            b = exp[n]
            c.decide("C" in b["abi"] and "Rust" not in b["abi"], "C calling convention", w, "abi %s" % b["abi"])
            rp = [rt.canon(i) for i in b["locals"][1:1 + b["argc"]]]
            rr = rt.canon(b["locals"][0])
            c.decide(len(rp) == len(cp), "number of parameters", w, "C %s Rust %s" % (cp, rp))
            for k, (x, y) in enumerate(zip(cp, rp)):
                c.decide(same(x, y), "parameter type", "%s#%d" % (w, k), "C %s Rust %s" % (x, y))
            c.decide(same(cr, rr), "result type", w, "C %s Rust %s" % (cr, rr))
            names(c, w, tree, n, b)
        for n in sorted(exp):
            if n not in sigs and target == "unix64":
                c.bad("declared", "%s:%s" % (target, n), "exported, not declared in the header")
            elif target == "unix64":
                c.ok("declared", "%s:%s" % (target, n))
    return c.finish()


SCALAR = {"u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64", "bool"}


def same(x, y):
    if x[0] == "*" and y[0] == "*":
        a, b = x[1:], y[1:]
        # *mut [u8; 3] is a uint8_t* to C; opaque structures are c_void in Rust
        while b.startswith("["):
            b = b[1:b.rindex(";")]
        if a in SCALAR and b in SCALAR:
            return a == b
        if (a in SCALAR) != (b in SCALAR):
            return "void" in (a, b)
        return True
    return x == y


ROLES = ("width", "heig", "min", "max", "bound", "channel", "palette", "bytes", "out", "weights")


def names(c, w, tree, n, b):
    """Parameters of one machine type can be swapped without any type noticing: the names tell."""
    decl = [x for x in tree["inner"] if x["kind"] == "FunctionDecl" and x["name"] == n][-1]
    cn = [p.get("name", "") for p in decl.get("inner", []) if p["kind"] == "ParmVarDecl"]
    rn = {}
    for nm, pl in b["dbg"]:
        if not pl[1] and 1 <= pl[0] <= b["argc"]:
            rn[pl[0] - 1] = nm
    role = lambda s: frozenset(r for r in ROLES if r in s.lower())
    croles = [role(x) for x in cn]
    for k, x in enumerate(cn):
        y = rn.get(k)
        if not x or not y:
            continue
        rx, ry = croles[k], role(y)
        # only a clear swap counts: this Rust parameter is named like another C parameter
        others = [j for j in range(len(cn)) if j != k and croles[j] == ry and ry and rx and rx != ry]
        if others and any(role(rn.get(j, "")) == rx for j in others):
            c.bad("parameter order", "%s#%d" % (w, k), "C calls it %s, Rust %s" % (x, y))
        else:
            c.ok("parameter order", "%s#%d" % (w, k))
