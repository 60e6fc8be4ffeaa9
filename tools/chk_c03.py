"""C03: compile-fail witnesses. Each witness is a small program that keeps, moves or shares a handle
in a way the property forbids; it must be rejected by the compiler for the borrow-checking (or trait)
reason, and its twin without the offending step must be accepted."""
import json, os, subprocess, tempfile, glob, itertools
from concurrent.futures import ThreadPoolExecutor
import vbuild
from common import Check

PRE = """#![allow(unused, dead_code)]
use nalgebra::{Const, Vector3, Vector4};
use qhull_rs::{raw, convex_hull, delaunay};
type N3 = Const<3>;
fn pts() -> Vec<[f64; 3]> { vec![] }
fn use_<T>(t: T) {}
type RawHull = raw::ConvexHull<N3>; fn mk_rawhull() -> RawHull { raw::ConvexHull::from_arrays(&pts()[..]) }
type RawTri = raw::Delaunay<N3>; fn mk_rawtri() -> RawTri { raw::Delaunay::from_arrays(&pts()[..]) }
type Hull = convex_hull::ConvexHull<N3>; fn mk_hull() -> Hull { convex_hull::ConvexHull::from_arrays(&pts()[..]) }
type Tri = delaunay::Delaunay<N3>; fn mk_tri() -> Tri { delaunay::Delaunay::from_arrays(&pts()[..]) }
"""

HANDLES = {
    "RawHull": ["o.vertices()", "o.facets()", "o.vertices().next().unwrap()", "o.facets().next().unwrap()",
                "o.vertices().next().unwrap().point()", "o.facets().next().unwrap().normal()",
                "o.facets().next().unwrap().vertices()", "o.facets().next().unwrap().neighbors()",
                "o.vertices().next().unwrap().neighbors()", "o.facets().next().unwrap().vertices().next().unwrap()",
                "o.facets().next().unwrap().neighbors().next().unwrap()",
                "o.facets().next().unwrap().vertices().next().unwrap().point()",
                "o.vertices().next().unwrap().neighbors().next().unwrap()",
                "o.vertices().clone()", "o.facets().next().unwrap().clone()", "o.facets().next().unwrap().vertices().clone()"],
    "RawTri": ["o.vertices()", "o.simplices()", "o.full_simplices()", "o.full_vertices()", "o.vertices().next().unwrap().point()",
               "o.full_vertices().next().unwrap().point()",
               "o.simplices().next().unwrap()", "o.simplices().next().unwrap().vertices()", "o.simplices().next().unwrap().normal()",
               "o.full_simplices().next().unwrap().neighbors().next().unwrap()", "o.simplices().next().unwrap().neighbors()",
               "o.find_best_simplex(Vector3::zeros(), cache(), None, None, None)"],
    "Hull": ["o.vertices()", "o.facets()", "o.vertices().next().unwrap()", "o.facets().next().unwrap()",
             "o.vertices().next().unwrap().point()", "o.facets().next().unwrap().normal()",
             "o.facets().next().unwrap().vertices()", "o.facets().next().unwrap().neighbors()",
             "o.facets().next().unwrap().vertices().next().unwrap()", "o.facets().next().unwrap().neighbors().next().unwrap()",
             "o.facets().next().unwrap().vertices().next().unwrap().point()"],
    "Tri": ["o.vertices()", "o.simplices()", "o.vertices().next().unwrap()", "o.simplices().next().unwrap()",
            "o.vertices().next().unwrap().point()", "o.simplices().next().unwrap().vertices()",
            "o.simplices().next().unwrap().vertices().next().unwrap()", "o.simplices().next().unwrap().vertices().next().unwrap().point()",
            "o.simplices().next().unwrap().neighbors()", "o.simplices().next().unwrap().neighbors().next().unwrap().unwrap()",
            "o.simplex_searcher()", "delaunay::SimplexSearcher::new(&o)",
            "o.simplex_searcher().find_simplex(&Vector3::zeros())",
            "o.simplex_searcher().find_simplex_mut(&Vector3::zeros(), &mut Vector4::zeros())"],
}
BORROW = {"E0597", "E0505", "E0502", "E0506", "E0521", "E0515", "E0716", "E0499", "E0503", None}

TYPES = {
    "raw::ConvexHull": "raw::ConvexHull<N3>", "raw::Delaunay": "raw::Delaunay<N3>", "raw::Vertex": "raw::Vertex<'static, N3>",
    "raw::Facet": "raw::Facet<'static, N3>", "raw::SetIter<Vertex>": "raw::SetIter<'static, raw::Vertex<'static, N3>>",
    "raw::SetIter<Facet>": "raw::SetIter<'static, raw::Facet<'static, N3>>",
    "raw::FacetListIterator": "raw::FacetListIterator<'static, N3>", "raw::VertexListIterator": "raw::VertexListIterator<'static, N3>",
}


def witnesses():
    for owner, hs in HANDLES.items():
        mk = "mk_%s()" % owner.lower()
        cache = "fn cache() -> &'static raw::BarycentricSolverCache<N3> { loop {} }\n" if owner == "RawTri" else ""
        for h in hs:
            head = cache + "fn w() { let mut o = %s; let h = %s; " % (mk, h)
            good = head + "use_(h); drop(o); }"
            yield ("dropped while handle lives", owner, h, good, head + "drop(o); use_(h); }", BORROW)
            yield ("mutated while handle lives", owner, h, good, head + "let m = &mut o; use_(&m); use_(h); }", BORROW)
            yield ("moved while handle lives", owner, h, good, head + "let b = Box::new(o); use_(h); }", BORROW)
            yield ("handle escapes its owner's scope", owner, h, good,
                   cache + "fn w() { let h; { let o = %s; h = %s; } use_(h); }" % (mk, h), BORROW)
    for name, t in TYPES.items():
        good = "fn need<T>() {} fn w() { need::<%s>(); }" % t
        yield ("sent to another thread", name, "Send", good, "fn need<T: Send>() {} fn w() { need::<%s>(); }" % t, {"E0277"})
        yield ("shared with another thread", name, "Sync", good, "fn need<T: Sync>() {} fn w() { need::<%s>(); }" % t, {"E0277"})
    for name in ("raw::ConvexHull", "raw::Delaunay"):
        t = TYPES[name]
        good = "fn need<T>() {} fn w() { need::<%s>(); }" % t
        yield ("owner cloned", name, "Clone", good, "fn need<T: Clone>() {} fn w() { need::<%s>(); }" % t, {"E0277"})
        yield ("owner copied", name, "Copy", good, "fn need<T: Copy>() {} fn w() { need::<%s>(); }" % t, {"E0277"})
    # handles can't be made up or given a longer life by safe code
    life = "fn w<'a, 'b>(x: %s<'a, %s>) -> %s<'b, %s> { x }"
    for t, a in (("raw::Vertex", "N3"), ("raw::Facet", "N3"), ("raw::FacetListIterator", "N3"), ("raw::VertexListIterator", "N3"),
                 ("raw::SetIter", "raw::Vertex<'static, N3>"),
                 ("convex_hull::Vertex", "N3"), ("convex_hull::Facet", "N3"),
                 ("delaunay::Vertex", "N3"), ("delaunay::Simplex", "N3"), ("delaunay::SimplexSearcher", "N3")):
        good = "fn w<'a>(x: %s<'a, %s>) -> %s<'a, %s> { x }" % (t, a, t, a)
        yield ("lifetime of a handle extended", t, "return", good, life % (t, a, t, a), BORROW)
    methods = [("raw::Vertex", "point", "&'X [f64]"), ("raw::Facet", "normal", "&'X [f64]"),
               ("raw::Vertex", "neighbors", "raw::SetIter<'X, raw::Facet<'X, N3>>"),
               ("raw::Facet", "vertices", "raw::SetIter<'X, raw::Vertex<'X, N3>>"),
               ("raw::Facet", "neighbors", "raw::SetIter<'X, raw::Facet<'X, N3>>"),
               ("convex_hull::Vertex", "point", "&'X Vector3<f64>"), ("convex_hull::Facet", "normal", "&'X Vector3<f64>"),
               ("convex_hull::Facet", "vertices", "impl Iterator<Item = convex_hull::Vertex<'X, N3>>"),
               ("convex_hull::Facet", "neighbors", "impl Iterator<Item = convex_hull::Facet<'X, N3>>"),
               ("delaunay::Vertex", "point", "&'X Vector3<f64>"),
               ("delaunay::Simplex", "vertices", "impl Iterator<Item = delaunay::Vertex<'X, N3>>"),
               ("delaunay::Simplex", "neighbors", "impl Iterator<Item = Option<delaunay::Simplex<'X, N3>>>")]
    for t, m, r in methods:
        good = "fn w<'a>(x: &'a %s<'a, N3>) -> %s { x.%s() }" % (t, r.replace("'X", "'a"), m)
        bad = "fn w<'a, 'b, 'c>(x: &'c %s<'a, N3>) -> %s { x.%s() }" % (t, r.replace("'X", "'b"), m)
        yield ("lifetime of a handle extended", t, m, good, bad, BORROW | {"E0700"})
        bad = "fn w<'a>(x: &'a %s<'a, N3>) -> %s { x.%s() }" % (t, r.replace("'X", "'static"), m)
        yield ("handle made 'static", t, m, good, bad, BORROW | {"E0700"})
    for owner, m, r in (("raw::ConvexHull", "vertices", "raw::VertexListIterator<'X, N3>"), ("raw::ConvexHull", "facets", "raw::FacetListIterator<'X, N3>"),
                        ("raw::Delaunay", "vertices", "raw::VertexListIterator<'X, N3>"), ("raw::Delaunay", "simplices", "raw::FacetListIterator<'X, N3>"),
                        ("raw::Delaunay", "full_simplices", "raw::FacetListIterator<'X, Const<4>>"),
                        ("raw::Delaunay", "full_vertices", "raw::VertexListIterator<'X, Const<4>>"),
                        ("convex_hull::ConvexHull", "vertices", "impl Iterator<Item = convex_hull::Vertex<'X, N3>>"),
                        ("convex_hull::ConvexHull", "facets", "impl Iterator<Item = convex_hull::Facet<'X, N3>>"),
                        ("delaunay::Delaunay", "vertices", "impl Iterator<Item = delaunay::Vertex<'X, N3>>"),
                        ("delaunay::Delaunay", "simplices", "impl Iterator<Item = delaunay::Simplex<'X, N3>>"),
                        ("delaunay::Delaunay", "simplex_searcher", "delaunay::SimplexSearcher<'X, N3>")):
        good = "fn w<'a>(x: &'a %s<N3>) -> %s { x.%s() }" % (owner, r.replace("'X", "'a"), m)
        bad = "fn w<'a>(x: &'a %s<N3>) -> %s { x.%s() }" % (owner, r.replace("'X", "'static"), m)
        yield ("handle made 'static", owner, m, good, bad, BORROW | {"E0700"})
    good = "fn w<'a>(s: &delaunay::SimplexSearcher<'a, N3>, p: &Vector3<f64>) -> Option<delaunay::Simplex<'a, N3>> { s.find_simplex(p) }"
    bad = "fn w<'a>(s: &delaunay::SimplexSearcher<'a, N3>, p: &Vector3<f64>) -> Option<delaunay::Simplex<'static, N3>> { s.find_simplex(p) }"
    yield ("handle made 'static", "delaunay::SimplexSearcher", "find_simplex", good, bad, BORROW)


def run():
    c = Check("C03", "one rustc run per witness: the type system decides. A witness that compiles is a violation")
    decide(c, list(witnesses()))
    c.assumptions = ["rustc's borrow checker and trait solver are sound", "only safe code is considered: unsafe code can do anything"]
    return c.finish()


def decide(c, ws):
    vbuild.mir()  # builds the crates' metadata
    deps = os.path.join(vbuild.BUILD, "target/debug/deps")
    ext = []
    for n in ("qhull_rs", "nalgebra"):
        fs = sorted(glob.glob(os.path.join(deps, "lib%s-*.rmeta" % n)), key=os.path.getmtime)
        if not fs:
            raise vbuild.BuildError("no metadata for " + n)
        ext += ["--extern", "%s=%s" % (n, fs[-1])]
    rustc = vbuild.out(["rustup", "which", "--toolchain", "nightly", "rustc"])
    sysroot = vbuild.out(["rustc", "+nightly", "--print", "sysroot"])
    env = dict(vbuild.clean_env(), LD_LIBRARY_PATH=sysroot + "/lib")

    with tempfile.TemporaryDirectory() as tmp:
        def compile_(job):
            k, code = job
            f = os.path.join(tmp, "w%d.rs" % k)
            with open(f, "w") as o:
                o.write(PRE + code + "\n")
            r = subprocess.run([rustc, "--edition", "2021", "--crate-type", "lib", "--crate-name", "w%d" % k, "--emit", "metadata",
                                "--error-format", "json", "--out-dir", tmp, "-L", "dependency=" + deps, f] + ext,
                               env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            codes = []
            for l in r.stderr.split("\n"):
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d.get("level") == "error" and not d["message"].startswith("aborting"):
                    codes.append((d["code"]["code"] if d.get("code") else None, d["message"]))
            return r.returncode, codes

        goods = sorted({w[3] for w in ws})
        jobs = [(i, g) for i, g in enumerate(goods)] + [(len(goods) + i, w[4]) for i, w in enumerate(ws)]
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(compile_, jobs))
        good = {g: res[i] for i, g in enumerate(goods)}
        for i, (kind, owner, h, g, b, codes) in enumerate(ws):
            c.count("witnesses")
            where = owner + ": " + h
            grc, gerr = good[g]
            if grc:
                c.unk(kind, where, "the twin does not compile: %s" % gerr[:1])
                continue
            rc, err = res[len(goods) + i]
            if rc == 0:
                c.bad(kind, where, "safe code compiles: " + b)
            elif all(x in codes for x, _ in err):
                c.ok(kind, where, "rejected: %s" % (err[0],))
            else:
                c.unk(kind, where, "rejected for another reason: %s" % err[:2])
        c.count("twins", len(goods))
