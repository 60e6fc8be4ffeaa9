"""C23: qhull's non-local jumps."""
import re
import cside, irflow, vbuild
from common import Check

RULE = ("LLVM IR of every function of the shim (dataflow per setjmp outcome): setjmp targets qh->errexit before any "
        "function that can reach longjmp is called with NOerrexit cleared; nothing that can raise an error runs after one "
        "came back; NOerrexit is set again on every return; the result distinguishes failure from success. Call graph: no "
        "other C function reachable from a function Rust calls leaves NOerrexit cleared. Rust MIR: no call that clears "
        "NOerrexit through the accessor, and no path on which the build's error result is nonzero reaches a normal return.")


def stores_zero(fn, noerr):
    for b in fn.blocks.values():
        for i in b:
            m = re.match(r"^store i32 0, ptr (%[\w.]+)", i)
            if m:
                f = fn.field(m.group(1))
                if f and f[1] == noerr:
                    return True
    return False


def run():
    c = Check("C23", RULE)
    c.assumptions.append("qhull's own C sources raise errors only through qh_errexit/longjmp; native target (the wasm build has no setjmp)")
    g, where = irflow.call_graph()
    c.count("C functions in the call graph", len(g))
    jumpers = {n for n, cs in g.items() if "longjmp" in cs or "siglongjmp" in cs}
    c.decide(bool(jumpers) or None, "longjmp", "qhull", "no function calls longjmp", sorted(jumpers))
    may = irflow.transitive(g, {"longjmp", "siglongjmp"})
    fld = irflow.field_numbers(["NOerrexit", "errexit"])
    shim = cside.ir_functions(cside.ir("unix64", "src/ext.c", "-O2"))
    local = set(shim)
    n_an = 0
    builders = []
    for n, (ps, bl, en) in sorted(shim.items()):
        fn = irflow.Fn(n, ps, bl, en)
        calls = set(cside.ir_calls(bl))
        if not (calls & may or "_setjmp" in calls or stores_zero(fn, fld["NOerrexit"])):
            continue
        n_an += 1
        v, facts = irflow.analyse(fn, may, fld["NOerrexit"], fld["errexit"], local)
        for k, d in v:
            c.bad(k, n, d)
        if not v:
            c.ok("error window", n, facts)
        if facts.get("setjmp"):
            builders.append(n)
    c.count("shim functions with error paths", n_an)

    d = vbuild.mir()
    ext = {e["name"] for e in d["externs"]}
    called = set()
    for b in d["bodies"]:
        for blk in b["blocks"]:
            t = blk["t"]
            if t and t[0] == "call" and isinstance(t[1], dict) and t[1].get("k") == "foreign":
                called.add(t[1]["p"].split("::")[-1])
    c.count("qhull functions Rust calls", len(called & (set(g) | local)))
    # functions of qhull proper that clear NOerrexit and return
    clear = set()
    for f in cside.c_files():
        for n, (ps, bl, en) in cside.ir_functions(cside.ir("unix64", f, "-O1")).items():
            if n in local:
                continue
            if stores_zero(irflow.Fn(n, ps, bl, en), fld["NOerrexit"]):
                clear.add(n)
    c.count("qhull functions that clear NOerrexit", len(clear))
    reach = irflow.transitive({n: cs for n, cs in g.items()}, clear) if clear else set()
    for n in sorted(called):
        if n in builders:
            continue
        if n in reach:
            c.bad("clears NOerrexit", n, "Rust calls %s, which leaves errors armed outside of a C frame with a jump target" % n)
        elif n in g:
            c.ok("clears NOerrexit", n)
    try:
        import c23_rust
        c23_rust.check(c, d, builders, may, called)
    except ImportError:
        pass
    return c.finish()
