#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a table here so that it is readable)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
      "anchors": {"files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "observe_at": list(observe), "hook_needed": None}})

RAW="qhull-rs/src/raw.rs"; CH="qhull-rs/src/convex_hull.rs"; DT="qhull-rs/src/delaunay.rs"
EXT="qhull-sys/src/ext.c"; U64="qhull-sys/src/bindings/unix_64bit.rs"; W32="qhull-sys/src/bindings/wasm_32bit.rs"
LIB="image-palette-recoloring/src/lib.rs"; PAL="image-palette-recoloring/src/palette.rs"; TRI="image-palette-recoloring/src/triangle_distance.rs"
CAPI="image-palette-recoloring-c/src/lib.rs"; HDR="image-palette-recoloring-c/image-palette-recoloring.h"
CLI="image-palette-recoloring-cli/src/main.rs"; JSW="image-palette-recoloring-web/src/js/webworker.js"; JSI="image-palette-recoloring-web/src/js/index.js"

p("C01","Every qhull instance is built in protocol order and torn down exactly once",
  "Whenever the wrappers create a qhull instance they initialise it, parse the option string, hand over the points, build the hull and triangulate it, in that order, and no handle to it exists unless every step was reached. When its owner is dropped, also after a failed construction, the instance's long memory, its short memory and finally the instance itself are released, each exactly once and in that order. Ownership of an instance cannot be duplicated.",
  ["inputs","histories"],"all point sets, dimensions and constructors, and every way an owner can be dropped or fail to be built",
  "Tests build a handful of small hulls; a leak, a double free or a skipped step is invisible to them unless it happens to crash, and no test fails a construction.",
  [RAW,EXT],[("construction sequence",RAW+": the hull and Delaunay constructors; "+EXT+": the build shim"),("teardown",RAW+": Drop for ConvexHull")])
p("C02","Qhull receives exactly the caller's points",
  "For every constructor, the coordinate buffer given to qhull is a C-heap copy of all of the caller's points and nothing else: its size, the bytes copied, the point count and the dimension describe the same slice. Qhull is made the owner of that buffer, and nothing else frees it or keeps using it.",
  ["inputs"],"all slices and iterators of points, for every dimension the types can express",
  "Tests use one or two dimensions and never look at the buffer: a short copy, a wrong stride or a double free reads plausible memory on small inputs.",
  [RAW,EXT],[("buffer hand-over",RAW+": from_arrays, from_vectors, from_iter and init_shared")])
p("C03","Handles cannot outlive or escape their hull or triangulation",
  "Safe code cannot keep a vertex, facet, simplex, iterator, coordinate slice or searcher after the hull or triangulation it came from was dropped, and cannot mutate or move that structure while such a handle lives. Qhull-backed objects and their handles cannot be sent to or shared with another thread, and a qhull-backed owner cannot be cloned.",
  ["programs"],"all safe client programs of the qhull wrappers",
  "A test is one program that compiles; the guarantee is about all the programs that must not compile.",
  [RAW,CH,DT],[("lifetimes and marker types",RAW+", "+CH+", "+DT)])
p("C04","The Rust declarations of qhull agree with its C headers",
  "For each supported target, every function that the Rust side declares as external exists in the C library with the same parameters and result, and every structure it declares has the same size, field offsets, field types and bit-field positions as the C compiler gives it. The accessor functions of the C shim return, or point to, the qhull field that they are named after.",
  ["configurations"],"all declared functions, structures and fields, on the 64-bit Unix and the 32-bit wasm target",
  "Tests run on one target and touch a few fields; a shifted field of a matching type usually still reads something plausible.",
  [U64,W32,EXT],[("hand-kept bindings",U64+", "+W32),("accessors",EXT)])
p("C05","The published C header matches the exported functions",
  "Each function declared in the C header is exported by the C library under that name, with the same number, order and machine types of parameters and the same result, and every function exported on native targets is declared in the header.",
  ["programs"],"all C programs written against the header",
  "No test calls the C interface, and a mismatch links without complaint.",
  [HDR,CAPI],[("header",HDR),("exports",CAPI)])
p("C06","C API objects are released as they were created; failures write nothing",
  "Every pointer the C interface hands out is released by its free function as the same type and, for buffers, the same length as it was allocated with. An output buffer receives exactly one byte per pixel (grayscale) or three bytes per pixel (RGB), and the declared failure value is returned, with nothing written to the caller's memory, exactly when the underlying operation reports failure.",
  ["inputs","histories"],"all images, palettes, channels and call sequences that respect the header's contract",
  "No test covers the C interface; allocation mismatches are silent on most allocators.",
  [CAPI],[("into_raw/from_raw pairs",CAPI),("output copies",CAPI)])
p("C07","Hull and triangulation tables index what they claim to",
  "In the array forms of the hull and the triangulation, each facet or simplex lists its own vertices, its own plane and its own neighbours, and every vertex or neighbour index refers to the entry that was stored for that qhull vertex or facet. The k-th neighbour stays opposite the k-th vertex, and a neighbour that is not part of a triangulation is reported as absent rather than as some simplex. In three dimensions the vertices of a hull facet are listed so that they turn around its normal.",
  ["inputs"],"all point sets for which qhull succeeds",
  "Existing tests only compare vertex sets of tiny hulls and never look at neighbours or planes.",
  [CH,DT],[("id maps and parallel tables",CH+": from_qhull_raw; "+DT+": from_qhull_raw")])
p("C08","A simplex search returns coordinates of the simplex it returns",
  "Whenever a simplex search reports a simplex, the coordinates it leaves in the caller's output are the barycentric coordinates of the queried point in that very simplex, all of them were tested against the tolerance, and the transform used was one that could be computed. A simplex whose transform could not be computed is never reported.",
  ["inputs","histories"],"all triangulations (including ones with degenerate simplices), query points, tolerances and sequences of queries",
  "One stable test queries four points in general position; stale or untested coordinates only show on degenerate or boundary inputs.",
  [DT,RAW],[("bruteforce and directed search",DT+", "+RAW),("degenerate transforms",DT+": BarycentricTransformation")])
p("C09","Searches only ever start from a simplex that exists",
  "A simplex search starts from a simplex that exists in the triangulation being searched: by default one that every non-empty triangulation has, otherwise one remembered from an earlier search of the same triangulation.",
  ["inputs","histories"],"all triangulations, including those with a single simplex, and all query sequences",
  "No test searches a single-simplex triangulation through the array form.",
  [DT],[("start hint",DT+": SimplexSearcher")])
p("C10","Simplex walks terminate",
  "Every walk from simplex to neighbouring simplex ends, also with rounding errors and degenerate simplices: each one either makes strict progress by a tolerance-sized margin in every round or runs for a number of rounds bounded in advance. When the bounded walk does not find a containing simplex, the search falls back to testing every simplex (or reports that there is none).",
  ["inputs"],"all triangulations, points and tolerances",
  "Cycling needs particular rounding errors that no sampled test reaches.",
  [DT,RAW],[("bounded directed walk",DT+", "+RAW),("progress margin",DT+", "+RAW)])
p("C11","Red, green and blue never mix",
  "Each colour component flows only into the same component everywhere from input pixels and palettes to output pixels and printed palettes: the red value of a result depends on the red components of pixels and palettes and on the (component-symmetric) weights only, and likewise for green and blue.",
  ["inputs"],"all images, palettes and channels, through the Rust, C and command-line interfaces",
  "No test runs an image through the pipeline; swapped lanes preserve sizes, types and gray images.",
  [LIB,PAL,CAPI,CLI],[("component order in points, matrices and pixels",LIB+", "+PAL+", "+CLI)])
p("C12","Colour values keep one scale from end to end",
  "Wherever colours are combined, compared or stored, both sides are on the same scale (0-1 or 0-255), and values leave the library as bytes on the 0-255 scale after being clamped to that range. Returned palettes are rounded to the nearest representable colour.",
  ["inputs"],"all images and palettes",
  "No test compares colours produced by one stage with those of another.",
  [LIB,PAL],[("scaling by 255 and clamping",LIB+", "+PAL)])
p("C13","Every output pixel belongs to the input pixel at the same place",
  "Results have the width and height of the image the weights were computed from, and the pixel at (x, y) of a recoloured or grayscale image is computed from the weights of the pixel at (x, y) of that image.",
  ["inputs"],"all image sizes, also non-square ones",
  "No test reconstructs an image; transposed layouts are invisible on square or uniform images.",
  [LIB],[("row-major pixel numbering",LIB)])
p("C14","Weights stay attached to the vertex and palette colour they belong to",
  "A pixel's weights are attached to the vertices of the simplex that contains it, and the colours of those same vertices are what the palette decomposition is computed for; each palette weight lands in the channel of the palette colour whose hull vertex it was computed for, in the caller's palette order. The weights of a colour are computed from the matrix of the very tetrahedron whose vertices receive them.",
  ["inputs"],"all images and palettes, whatever order qhull lists vertices in",
  "Vertex orders depend on qhull; no test compares channels with palette entries.",
  [LIB,PAL],[("index spaces of weights, hull vertices, tetrahedra and palette",LIB+", "+PAL)])
p("C15","Unusable palettes and channels are rejected, usable ones are not",
  "Decomposition fails for every palette with fewer than 4 colours, with a colour that is not a vertex of the palette's hull, or with a repeated colour, and for no other reason. Reconstruction yields nothing exactly when the new palette's size differs from the number of channels, and a channel image yields nothing exactly when the channel number is not below the number of channels.",
  ["inputs"],"all palettes and channel numbers",
  "No test calls these functions.",
  [LIB],[("argument checks",LIB)])
p("C16","Results do not depend on hash iteration order",
  "Computing weights, palettes, decompositions and images gives identical results in every run and process for the same inputs: no result, also no rounding of a sum and no choice between equally good candidates, depends on the iteration order of a hash map or on addresses.",
  ["inputs","schedules"],"all inputs, over all hash seeds",
  "Every run draws fresh hash seeds, and a differing run is one among many; tests never compare runs.",
  [PAL,CH,DT],[("ordering of hash map contents",PAL)])
p("C17","Geometry does not depend on the choice of origin or unit",
  "Closest points on triangles, distances, hull orientation, tetrahedron volumes and barycentric coordinates are computed from differences of points and dimensionally consistent formulas, so that translating all points translates closest points and leaves distances, volumes and barycentric coordinates alone, and scaling the unit scales them by the matching power.",
  ["inputs"],"all triangles, tetrahedra, simplices and query points, in every branch",
  "One test checks six triangles; several of the branches are never taken by it.",
  [TRI,PAL,DT,CH],[("closest point on a triangle",TRI),("volume",PAL),("barycentric transform",DT)])
p("C18","The command line accepts exactly well-formed palettes and saves what it says",
  "A palette argument is accepted only if it is a comma-separated list of six-digit hexadecimal colours, each two digits giving red, green and blue in that order, and a printed palette is in the same form. Recolouring decomposes with the decomposition palette, reconstructs with the reconstruction palette, refuses palettes of different sizes and saves the results of that decomposition.",
  ["inputs"],"all palette strings and command lines",
  "The command-line tool has no tests.",
  [CLI],[("palette parser and printer",CLI),("commands",CLI)])
p("C19","The web worker frees every buffer it allocates, once, with its size",
  "For each request, every wasm buffer the worker allocates is freed exactly once with the size it was allocated with on every path, also when the computing wasm call throws or reports failure, and is not accessed after it was freed; a palette returned by the library is freed once, with its number of colours. A view of wasm memory lies inside its buffer and is not used after a call that may have grown that memory.",
  ["inputs","fault_sequences"],"all requests and every wasm call that may fail or throw",
  "The web front end has no tests, and wasm failures need unusual images.",
  [JSW],[("allocate/try/finally blocks",JSW)])
p("C20","The web page and worker agree, and every request gets one reply",
  "Every request the page sends names a method the worker handles and passes the arguments it reads, in the same order; the worker calls only functions the C library exports, with the number of arguments they take, each standing for what that parameter means (sizes of the very image, the limits the user entered, the object of the right kind, colours of the right palette), and answers each request exactly once on every path that does not throw, with an error exactly when the library reports failure. An array that was handed over to the other side is not used afterwards.",
  ["inputs","fault_sequences"],"all requests and all outcomes of the library calls",
  "The web front end has no tests.",
  [JSI,JSW,CAPI],[("request dispatch",JSW),("request senders",JSI)])
p("C21","The web page never uses or frees a released image object",
  "Once the page asks the worker to free an image object, it forgets its handle before anything else can run, so that the handle is neither used nor freed again whatever happens next; only handles the page holds are ever sent, and none is replaced before a request to free it was sent. Only one of the page's multi-step operations runs at a time: each waits for the one before it.",
  ["schedules","fault_sequences"],"all interleavings of user events with pending requests, and all failing requests",
  "The web front end has no tests, and the interleavings need user events between replies.",
  [JSI],[("handle variables",JSI)])
p("C22","Image sizes never overflow on the way to a buffer length",
  "Every buffer length and element count derived from image dimensions is computed at pointer width, so that any image that fits in memory has its exact byte and pixel count used for slices, matrices and allocations.",
  ["inputs"],"all image sizes",
  "The overflow needs images of more than 2^32 bytes or pixels.",
  [CAPI,LIB],[("size arithmetic",CAPI+", "+LIB)])
p("C23","A qhull error never jumps out of a live frame",
  "Qhull reports errors by a non-local jump; whenever such an error can be raised while building, the jump target is a frame that is still active and belongs to C, the failure is reported to Rust as a value that is not ignored, and outside of that window errors are not raised as jumps at all.",
  ["inputs","fault_sequences"],"all inputs that make qhull fail (flat or too few points, precision errors, exhausted memory)",
  "No test gives qhull a degenerate input.",
  [EXT,RAW],[("setjmp shim",EXT),("error code",RAW)])
p("C24","The palette error bound is checked against the palette that is returned",
  "While the hull has no more colours than the maximum size, a simplification is adopted only after the error of that very simplified hull, with its vertices clamped to representable colours, was found not to exceed the bound; inside tests and distances use the same clamped hull. No simplification is made once the hull has no more colours than the requested minimum, taken as at least 4; above it, simplification goes on while the hull has more colours than the maximum size or the error does not exceed the bound, as long as the number of colours keeps falling. When no edge can be collapsed, the palette found so far is returned.",
  ["inputs"],"all images, size limits and error bounds",
  "No test calls the palette computation.",
  [PAL],[("simplification loop",PAL+": compute_palette"),("error",PAL+": compute_pixel_error")])
p("C25","Qhull's lists and sets are walked exactly, without their sentinels",
  "Iterating facets, vertices or the members of a facet or vertex yields each qhull element exactly once, in qhull's order, and never yields the end marker or reads past it.",
  ["inputs"],"all hulls",
  "Tests walk a few small lists; reading one element past the end is usually harmless there.",
  [RAW],[("list iterators and set iterator",RAW)])
p("C26","Pixels and palette colours cross the web boundary unchanged",
  "The worker hands the library exactly the colour channels of every pixel of the picture, in reading order, and gives the page the library's pixels at the places they stand for, opaque; palette colours go to the library and come back with their components in the order red, green, blue; and every colour the page shows or sends is the one the user or the library gave, component by component, whichever of the page's fields and swatches it passes through.",
  ["inputs"],"all pictures, palettes and colours the user can enter",
  "The web front end has no tests.",
  [JSI,JSW],[("pixel and palette copies",JSW),("colour fields",JSI)])
p("C30","Recolouring with the decomposition palette gives the image back",
  "Reconstructing with the palette used for the decomposition reproduces every pixel whose colour lies in the palette's hull to within rounding.",
  ["inputs"],"all images and palettes","No test reconstructs an image.",[LIB,PAL],[("weights and palette matrices",LIB+", "+PAL)])
p("C31","Weights are non-negative and sum to one",
  "Every pixel's weights sum to one and lie in [0, 1] up to the search tolerance.",
  ["inputs"],"all images and palettes","No test looks at weights.",[LIB,PAL,DT],[("barycentric coordinates",DT+", "+PAL)])
p("C32","Computed palettes enclose the image",
  "With error bound 0 the hull of the unclamped palette contains every pixel colour, and no palette colour is redundant.",
  ["inputs"],"all images","No test computes a palette.",[PAL],[("edge collapse by linear programming",PAL)])
p("C33","Triangulations are Delaunay and hulls are convex",
  "No vertex lies inside a simplex's circumsphere or outside a facet's plane.",
  ["inputs"],"all point sets","Tests compare two tiny triangulations.",["qhull-sys/qhull/src/libqhull_r",DT,CH],[("qhull",EXT)])
p("C34","No input makes the library panic",
  "Every image and palette either gives a result or an error value.",
  ["inputs"],"all images and palettes","Tests use a few inputs.",[LIB,PAL,RAW],[("unwraps",PAL)])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
