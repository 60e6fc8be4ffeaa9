"""C01: every qhull instance is built in protocol order and torn down exactly once."""
import re
from common import Check
import vbuild, pipe, rawc
from rawc import Run, short
from terms import *
from eng import eq, Abort

STEPS = ["qh_init_A", "qh_initflags", "qh_init_B", "qh_qhull", "qh_triangulate"]
WHAT = {"qh_init_A": "initialised", "qh_initflags": "given its options", "qh_init_B": "given the points", "qh_qhull": "run", "qh_triangulate": "triangulated"}
FREES = ["qh_freeqhull", "qh_memfreeshort", "free"]


def implies(p, q):
    return And(p, Not(q)) is FALSE


def build(c, d):
    import irflow
    proj = irflow.field_numbers(["PROJECTdelaunay"])["PROJECTdelaunay"]
    for b, (kind, n) in rawc.constructors(d):
        w = short(b)
        try:
            r = Run(d, b)
            ev = rawc.effects(r)
        except Abort as e:
            c.unk("construction", w, str(e)[:200])
            continue
        c.count("constructors")
        qs = [v for pc, f, a, v in ev if f == "rqh_malloc"]
        hd = handle(r.ret, kind)
        if hd is None:
            c.unk("construction", w, "the handle's form: " + show(r.ret, 3)[:100])
            continue
        if hd not in qs:
            if hd.op == "app" or hd.op == "c":
                c.bad("handle", w, "the handle does not hold the instance that was allocated")
            else:
                c.unk("handle", w, show(hd, 3)[:100])
            continue
        c.ok("handle", w, "holds the allocated instance")
        known = {"rqh_malloc"} | set(STEPS)
        opaque = [f for pc, f, a, v in ev if f.startswith("rqh_") and not f.startswith(("rqh_get_", "rqh_std", "rqh_malloc"))]
        pos = {}
        bad = False
        for s in STEPS:
            es = [(i, pc, a) for i, (pc, f, a, v) in enumerate(ev) if f == s]
            if not es:
                if opaque:
                    c.unk("steps", w, "not followed: " + ", ".join(opaque))
                else:
                    c.bad("step missing", w, "a handle is given out for an instance that was not %s (%s)" % (WHAT[s], s))
                bad = True
                continue
            cov = FALSE
            for i, pc, a in es:
                if And(cov, pc) is not FALSE:
                    c.bad("step repeated", w, "%s can be called twice on one instance" % s)
                    bad = True
                cov = Or(cov, pc)
                if a[0] is not hd:
                    c.bad("instance", w, "%s is called on something else than the instance of the handle" % s)
                    bad = True
            if not implies(r.pc, cov):
                c.bad("step skipped", w, "a handle is given out although %s was not called" % s)
                bad = True
            pos[s] = (min(i for i, pc, a in es), max(i for i, pc, a in es))
        for x, y in zip(STEPS, STEPS[1:]):
            if x in pos and y in pos and pos[x][1] > pos[y][0]:
                c.bad("order", w, "%s is called before %s" % (y, x))
                bad = True
        if not bad:
            c.ok("steps", w, " -> ".join(STEPS))
        # a failed build gives no handle
        for pc, f, a, v in ev:
            if f.startswith("result:"):
                c.decide(implies(r.pc, eq(const(0, "int"), v)), "failure", w, "a handle is given out although the build reported an error",
                         "the build reported no error wherever a handle is given out")
        # the option string
        for pc, f, a, v in ev:
            if f != "qh_initflags":
                continue
            s = rawc.string(a[1], r)
            if s is None:
                c.unk("options", w, show(a[1], 3)[:100])
                continue
            if not s.endswith(b"\0"):
                c.bad("options", w, "the option string is not terminated")
                continue
            toks = s.split(b"\0")[0].split()
            if not toks or toks[0] != b"qhull" and not toks[0].endswith(b"qhull"):
                c.bad("options", w, "the option string does not start with the command name")
            elif (b"d" in toks) != (kind == "RawDelaunay") or b"v" in toks:
                c.bad("options", w, "options %s for a %s" % (s, "triangulation" if kind == "RawDelaunay" else "hull"))
            elif kind == "RawDelaunay" and b"Qbb" not in toks:
                c.bad("options", w, "the lifting is not scaled (Qbb), which the triangulation's parabola relies on")
            else:
                c.ok("options", w, s.decode("latin1").rstrip("\0"))
        st = [(pc, f, a) for pc, f, a, v in ev if f == "store:%d" % proj]
        on = [x for x in st if num(x[2][1]) not in (0, None)]
        ib = pos.get("qh_init_B", (None,))[0]
        if ib is not None:
            before = any(num(a[1]) for pc, f, a, v in ev[:ib] if f == "store:%d" % proj)
            c.decide(before == (kind == "RawDelaunay"), "projection", w,
                     "the points are %s for a %s" % ("lifted" if before else "not lifted", "triangulation" if kind == "RawDelaunay" else "hull"),
                     "lifted" if before else "not lifted")


def handle(v, kind):
    """the qhull instance of the handle value"""
    while v.op == "vr":
        v = v.a[0]
    if v.op != "agg" or not isinstance(v.a[0], str):
        return None
    if v.a[0].split("::")[-1] == "RawHull":
        return v.a[2]
    if v.a[0].split("::")[-1] == "RawDelaunay":
        for x in v.a[2:]:
            h = handle(x, kind) if type(x) is T and x.op == "agg" else None
            if h is not None:
                return h
    return None


def teardown(c, d):
    """dropping an owner releases its instance"""
    for b in d["bodies"]:
        if not rawc.RAWTY.search(b["name"]):
            continue
        kind = "RawHull" if "RawHull" in b["name"] else "RawDelaunay"
        w = "drop of " + re.sub(r"^.*drop_glue::<qhull_rs::(.*)>$", r"\1", b["name"]).replace("nalgebra::", "")
        try:
            r = Run(d, b)
        except Abort as e:
            c.unk("teardown", w, str(e)[:200])
            continue
        c.count("owners torn down")
        ev = [e for e in rawc.effects(r)]
        qs = set()
        bad = False
        for s in FREES:
            es = [(i, pc, a) for i, (pc, f, a, v) in enumerate(ev) if f == s]
            if not es:
                c.bad("not released", w, "%s is not called when the owner is dropped" % s)
                bad = True
                continue
            cov = FALSE
            for i, pc, a in es:
                if And(cov, pc) is not FALSE:
                    c.bad("released twice", w, "%s can be called twice" % s)
                    bad = True
                cov = Or(cov, pc)
                qs.add(a[0])
            # an instance pointer is never null: conditions on that do not count
            if cov is not TRUE and not implies(r.pc, cov):
                c.bad("released conditionally", w, "%s is not called on every path" % s)
                bad = True
        if len(qs) > 1:
            c.bad("released instance", w, "the calls release different things: " + ", ".join(sorted(show(q, 3)[:60] for q in qs)))
            bad = True
        elif len(qs) == 1:
            q = list(qs)[0]
            n = 0
            t = q
            while t.op == "f" or t.op == "fld":
                t = t.a[0]
                n += 1
        order = [[i for i, e in enumerate(ev) if e[1] == s] for s in FREES]
        if all(order) and not (max(order[0]) < min(order[1]) and max(order[1]) < min(order[2])):
            c.bad("release order", w, "long memory, short memory and the instance are not released in that order")
            bad = True
        # a step after the release of the instance
        last = max(order[2]) if order[2] else None
        if last is not None and any(e[1].startswith(("qh_", "rqh_")) for e in ev[last + 1:]):
            c.bad("use after release", w, "qhull is called after the instance was released")
            bad = True
        if not bad:
            c.ok("teardown", w, " -> ".join(FREES))


def ownership(c, d):
    """owners are made only by the constructors and are never forgotten"""
    types = d["types"]
    own = {i for i, t in enumerate(types) if re.match(r"^qhull_rs::Raw(Hull|Delaunay)<", t["s"])}

    def contains(i, depth=0):
        t = types[i] if isinstance(i, int) else None
        if t is None or depth > 4:
            return False
        if i in own:
            return True
        if t["k"] in ("ref", "ptr"):
            return False
        if t["k"] == "adt":
            return any(contains(f[1], depth + 1) for v in t.get("v") or [] for f in v["f"]) or any(contains(a, depth + 1) for a in t["a"])
        if t["k"] == "tuple":
            return any(contains(a, depth + 1) for a in t["f"])
        return False
    made = {}
    for b in d["bodies"]:
        calls = {}
        for bl in b["blocks"]:
            t = bl["t"]
            if t and t[0] == "call" and isinstance(t[1], dict) and "p" in t[1]:
                k = rawc.normkey(t[1]["p"])
                calls.setdefault(k, []).append(t)
        w = short(b) if "qhull_rs" in b["name"] else b["name"].split("<")[0]
        for k, ts in calls.items():
            m = k.split("::")[-1]
            for t in ts:
                if k in ("std::mem::forget", "std::mem::ManuallyDrop::new", "std::boxed::Box::leak", "std::boxed::Box::into_raw", "std::mem::MaybeUninit::new",
                         "std::ptr::write", "std::rc::Rc::into_raw"):
                    if any(contains(x) for x in t[5] if x is not None):
                        c.bad("never released", w, "an owner of a qhull instance is given to %s" % k)
                if k in ("std::ptr::read", "std::ptr::mut_ptr::read", "std::ptr::const_ptr::read", "std::mem::transmute_copy", "std::mem::zeroed", "std::ptr::drop_in_place",
                         "std::mem::ManuallyDrop::drop", "std::ptr::read_unaligned"):
                    if t[6] is not None and contains(t[6]) or k.endswith(("drop_in_place", "ManuallyDrop::drop")) and any(
                            contains(types[x].get("e")) for x in t[5] if x is not None and types[x]["k"] in ("ptr", "ref")):
                        c.bad("duplicated", w, "an owner of a qhull instance is duplicated by %s" % k)
        for bl in b["blocks"]:
            for s in bl["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] in own:
                    if rawc.rawtype(d, s[2][1][1])[0] == "RawHull":
                        made.setdefault(b["name"], [b, 0, calls])[1] += 1
    for n, (b, k, calls) in sorted(made.items()):
        fresh = any(x.endswith("::rqh_malloc") for x in calls)
        par = any(contains(types[b["locals"][i]].get("e") if types[b["locals"][i]]["k"] == "ref" else None) for i in range(1, b["argc"] + 1)
                  if isinstance(types[b["locals"][i]].get("e"), int))
        if k > 1 and fresh:
            c.unk("owners made", short(b), "%d places" % k)
        elif fresh:
            c.ok("owners made", short(b), "one, of a fresh instance")
        elif par:
            c.bad("duplicated", short(b), "a second owner of an existing instance is made")
        else:
            c.unk("owners made", short(b), "of an instance that is passed in")
    c.count("functions that make owners", len(made))


def unwinding(c, d):
    """after the instance was allocated, every call that can unwind has the owner dropped on the way out"""
    types = d["types"]
    own = {i for i, t in enumerate(types) if re.match(r"^qhull_rs::Raw(Hull|Delaunay)<", t["s"])}
    for b in d["bodies"]:
        if not b["name"].startswith(("qhull_rs::", "<qhull_rs::")):
            continue
        made = {}      # local -> block of the aggregate
        inst = []
        for n, bl in enumerate(b["blocks"]):
            t = bl["t"]
            if t and t[0] == "call" and isinstance(t[1], dict) and str(t[1].get("p", "")).endswith("::rqh_malloc"):
                inst.append(n)
        if not inst:
            continue
        w = short(b)
        bs = b["blocks"]

        def succ(t):
            k = t[0]
            if k == "goto":
                return [t[1]]
            if k == "sw":
                return [x[1] for x in t[2]] + [t[3]]
            if k == "call":
                return [t[4]] if t[4] is not None else []
            if k in ("drop",):
                return [t[2]]
            if k == "assert":
                return [t[4]]
            return []
        # forward: set of locals that own an instance (may)
        state = {}
        work = []
        for n in inst:
            t = bs[n]["t"]
            if t[4] is not None:
                state[t[4]] = frozenset()
                work.append(t[4])
        bad = False
        seen = {}
        while work:
            n = work.pop()
            s = set(state[n])
            for x in bs[n]["s"]:
                if x[0] != "=":
                    continue
                pl, r = x[1], x[2]
                ops = [o for o in (r[2] if r[0] == "agg" else r[1:]) if isinstance(o, list) and o and o[0] == "m"]
                moved = [o[1][0] for o in ops if o[1][0] in s]
                for m in moved:
                    s.discard(m)
                if moved or (r[0] == "agg" and r[1][0] == "adt" and r[1][1] in own and rawc.rawtype(d, r[1][1])[0] == "RawHull"):
                    s.add(pl[0])
            t = bs[n]["t"]
            if not t:
                continue
            if t[0] == "call":
                mv = {o[1][0] for o in t[2] if o[0] == "m"} & s
                s2 = s - mv
                seen[n] = (frozenset(s2), t)
                if mv and t[6] is not None and t[6] in own:
                    s = s2 | {t[3][0]}
                else:
                    s = s2
            elif t[0] == "drop" and t[1][0] in s and not t[1][1]:
                s.discard(t[1][0])
            for m in succ(t):
                ns = frozenset(s) | state.get(m, frozenset())
                if m not in state or ns != state[m]:
                    state[m] = ns
                    work.append(m)
        n_calls = 0
        for n, (s, t) in sorted(seen.items()):
            cal = t[1]
            key = rawc.normkey(cal.get("p") or "") if isinstance(cal, dict) else ""
            if isinstance(cal, dict) and cal.get("k") == "foreign":
                continue
            if not s:
                # not owned yet: only the conversion of the fresh pointer may come in between
                if key.startswith(("std::ptr::", "std::option::Option::")) or key.split("::")[-1] in ("unwrap", "expect", "new", "null_mut", "null", "as_ptr", "dim"):
                    continue
                c.unk("unwinding", w, "%s is called before the instance has an owner" % key)
                continue
            n_calls += 1
            u = t[7]
            dropped = set()
            seenb = set()
            st = [u] if u is not None else []
            while st:
                m = st.pop()
                if m in seenb:
                    continue
                seenb.add(m)
                tt = bs[m]["t"]
                if tt and tt[0] == "drop":
                    dropped.add(tt[1][0])
                if tt:
                    st.extend(succ(tt))
            if not (s & dropped) and may_unwind(key):
                c.bad("unwinding", w, "the instance is not released when %s panics" % (key or "a call"))
                bad = True
        if not bad:
            c.ok("unwinding", w, "%d calls" % n_calls)


def may_unwind(key):
    return not (key.startswith(("std::ptr::", "std::fmt::Arguments", "core::fmt::rt")) or key.split("::")[-1] in
                ("as_ptr", "as_mut_ptr", "cast", "null_mut", "null", "dim", "len", "new_display", "deref", "as_ref", "into_iter"))


def run():
    c = Check("C01", "typestate of the qhull instance over the value-flow terms of every constructor (allocated, initialised, options, points, "
              "hull, triangulated; LLVM IR of the C shim for the steps done there) and of the drop glue (long memory, short memory, instance); "
              "MIR analysis of owners made, forgotten or duplicated and of the cleanup edges of calls that can unwind")

    def go():
        d = vbuild.mir()
        build(c, d)
        teardown(c, d)
        ownership(c, d)
        unwinding(c, d)
        import chk_c03
        chk_c03.decide(c, [w for w in chk_c03.witnesses() if w[0] in ("owner cloned", "owner copied")])
    pipe.run(go, c)
    return c.finish()
