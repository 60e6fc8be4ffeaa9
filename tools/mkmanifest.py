"""Writes MANIFEST.json from the list of built checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
 "C01": ("typestate of qhull instances over the value-flow graph of the MIR constructors, drop glue and unwind edges, with the C shim's LLVM IR", "Protocol order, flags, options, failure exit and teardown of every raw constructor and owner; that qhull itself releases what it allocated is outside."),
 "C02": ("provenance of the point buffer in the value-flow graph of the MIR of each raw constructor", "Count, dimension, size, source and ownership of the buffer handed to qhull; points written element by element are left undecided."),
 "C03": ("compile-fail witnesses with compiling twins", "Decides the escape, mutation, send/share and clone programs generated for every public handle-producing method; programs outside the generated templates are not considered."),
 "C04": ("cross-language layout and signature comparison; LLVM IR of the accessors", "Complete for the declared externs, records, fields and bit-fields of both targets."),
 "C05": ("cross-language signature comparison of header and MIR exports", "Complete for the names, arity, machine types and results; parameter meaning beyond types is not decided."),
 "C06": ("value-flow graph of the MIR of each exported C function: results, writes through the caller's pointers, allocation and release pairs", "Complete for the exported functions; the application's operations enter as uninterpreted results of their arguments."),
 "C07": ("small-model shape analysis: constructor and accessors of the array forms on abstract qhull heaps, in the value-flow graph of the MIR", "Hulls and triangulations of two to six facets in the dimensions used; coordinates, normals and offsets are opaque; ids, list orders and upper facets are chosen so that mixed-up tables differ."),
 "C08": ("must-facts over the value-flow graph of each search on small abstract triangulations: result, hint, output coordinates and the tests implied by the decision that reports them", "Array and raw searches on triangulations of one to four simplices (with upper facets, missing transforms, every start); transforms are symbolic inverses, so index and row mix-ups differ; walks are recurrences, not unrolled."),
 "C09": ("typestate of the start hint: reachable searcher states and walk values on small abstract triangulations, in the value-flow graph of the MIR", "Array and raw searches on triangulations of one to five simplices, every state that searches lead to; indices and handles are exact, geometry is opaque."),
 "C10": ("termination analysis: loop bounds, or comparisons that no cycle of abstract states can satisfy, from the loops' value-flow terms; exclusion facts where no simplex is reported", "Array and raw searches on triangulations of one to five simplices; floating-point values are opaque except for the comparisons made of them; recursion is not analysed."),
 "C11": ("equivariance of canonical value-flow terms under renaming of the colour components; lane provenance", "Component flow through images, palettes, hulls, linear programs and weights; exact real arithmetic."),
 "C12": ("scale (power of 255) inference over the value-flow terms of images, palettes, hulls and queries", "Decides the scale agreement of sums, comparisons, limits, queries and byte conversions; constants other than powers of 255 count as plain numbers."),
 "C13": ("value-flow graph of the MIR with integer index normal forms", "Compares the pixel coordinates behind the weight row with the coordinates of the output pixel symbolically; terms outside the index fragment are left undecided."),
 "C14": ("value-flow graph of the MIR: index spaces of weights, vertices and channels", "Decides the provenance of every weight slot for all four stages; qhull and the simplex search enter by contract."),
 "C15": ("value-flow graph of the MIR: decision diagrams of the failure conditions", "The failure condition is compared as a boolean function of its atoms; panics inside dependencies are not considered."),
 "C16": ("order-dependence analysis over the value-flow graph of the MIR", "Every place where the numbering of hash map entries can reach a result; qhull and the LP solver are taken to be deterministic."),
 "C17": ("translation derivative and dimension analysis of the geometric functions' value-flow terms", "Decided for closest point, squared distance, tetrahedron volume and barycentric coordinates in 3 and 5 dimensions; exact real arithmetic, rounding is not modelled."),
 "C18": ("abstract interpretation of the palette parser on strings known by shape (class of each byte), and value flow of the command from options to operations, output and saved files", "About 120 string shapes of one to three pieces (every malformation at every place); the options' own parsing by clap is not analysed."),
 "C19": ("typestate of wasm buffers and views in a path-sensitive value-flow interpretation of the worker's syntax tree, with trap and rejection edges", "All requests, every path; loops by induction variables; sizes compared as polynomials."),
 "C20": ("value flow through page, requests, worker and library declarations: replies per path, arity, meaning of every library argument", "Statically resolved end to end; values the interpreter cannot resolve are left undecided."),
 "C21": ("typestate of image-object handles over every path of every page event handler, with the lock that serialises the steps", "Any earlier page state; run-to-completion between awaits is JavaScript's."),
 "C22": ("interprocedural dataflow of image dimensions over the MIR; buffer length terms", "Every product of a dimension in the application, C and command-line crates; allocation failure is not considered."),
 "C23": ("LLVM IR dataflow over the setjmp window, C call graph, MIR path analysis of the result", "Native target; qhull's own error raising is taken to go through longjmp only."),
 "C24": ("decision diagrams of the simplification loop in the value-flow graph of the MIR; identity of the hull terms", "Stop condition, result and error hull of the loop for all orderings of sizes, error and bound; what the distance to a facet evaluates to is C17's."),
 "C26": ("value flow of bytes and colour components through the worker's and the page's syntax trees: index polynomials of every copy, provenance of every component shown or sent", "All requests and page steps, every path; loops by induction variables; colours the user enters are known by shape (class of each byte)."),
 "C25": ("shape analysis: the iterators' value-flow graphs on abstract heaps with qhull's sentinels", "Lists and sets of up to three elements plus sentinel; elements are opaque, so the walk cannot depend on anything else."),
}
NA = {
 "C30": "a numerical round-trip equality over all images; no static argument in reach bounds the rounding of LU inverses and sparse products",
 "C31": "bounds on computed floating-point coordinates for every input",
 "C32": "depends on the numerical results of qhull and of the linear programs",
 "C33": "the geometric correctness of qhull's output (external C library) for every input",
 "C34": "whether unwraps can fail depends on numerical results of qhull, LU and the LP solver; the reachable panics can be listed but not excluded statically",
}
if __name__ == "__main__":
    import importlib, sys
    sys.path.insert(0, os.path.join(V, "tools"))
    props = [json.loads(l) for l in open(V + "/properties.jsonl")]
    na = dict(NA)
    checks = []
    for p in props:
        i = p["id"]
        if i in CHECKS:
            t, n = CHECKS[i]
            checks.append(dict(property=i, quick_cmd="./check " + i, thorough_cmd="./check " + i, technique="static analysis: " + t,
                               level="other", level_note=n))
        elif i not in na:
            na[i] = "not built yet"
    m = dict(version=1, setup_cmd="true", checks=checks,
             not_applicable=[dict(property=k, reason=v) for k, v in sorted(na.items())])
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
    print(len(checks), "checks", len(na), "not applicable")
