"""C04: the Rust declarations of qhull agree with its C headers."""
import json, os, re
import cside, vbuild
from common import Check
from rtypes import RTypes

IGN = re.compile(r"^(_bitfield_|__bindgen_|_unused|_empty|_address)")


def const_args(body, op):
    """integer constants passed to the bit-field unit's get/set"""
    v = op[2].get("v") if op[0] == "k" and isinstance(op[2], dict) else None
    return v


def bit_accessors(mir, crate):
    """(struct, field, 'get'|'set') -> set of (unit offset, bit, width, unit field)"""
    res = {}
    for b in mir["bodies"]:
        m = re.match(r"^(?:.*::)?(\w+)::(\w+)$", b["def"])
        if not m or crate not in b["name"] + b["def"]:
            continue
        st, fn = m.groups()
        for bl in b["blocks"]:
            t = bl["t"]
            if t[0] != "call" or not isinstance(t[1], dict) or "BindgenBitfieldUnit" not in t[1].get("p", ""):
                continue
            op = t[1]["p"].split("::")[-1]
            if op not in ("get", "set") or fn.startswith("new_bitfield"):
                if op == "set" and fn.startswith("new_bitfield"):
                    vals = [const_args(b, o) for o in t[2][1:3]]
                    res.setdefault((st, fn, "new"), []).append(tuple(vals))
                continue
            vals = tuple(const_args(b, o) for o in t[2][1:3])
            # which unit: the reference to self.<field> taken in this body
            unit = set()
            for bb in b["blocks"]:
                for s in bb["s"]:
                    if s[0] == "=" and s[2][0] in ("ref", "addr"):
                        for p in (s[2][-1] if isinstance(s[2][-1], list) else [None, []])[1]:
                            if isinstance(p, list) and p[0] == "f":
                                unit.add(p[1])
            name = fn[4:] if op == "set" and fn.startswith("set_") else fn
            res.setdefault((st, name, op), []).append(vals + (tuple(sorted(unit)),))
    return res


def run():
    c = Check("C04", "every extern fn and repr(C) type of qhull-sys is compared with clang's view of the headers, per target; "
              "shim accessors are compared, as optimised LLVM IR, with a direct access to the field they are named after")
    mir = vbuild.mir()
    types = mir["types"]
    defined = set()
    for f in cside.c_files():
        defined |= set(cside.ir_functions(cside.ir("unix64", f, "-O0")))
    for target, crate, ptr in (("unix64", "qhull_sys", 8), ("wasm32", "vharness", 4)):
        sigs, ct = cside.signatures(target)
        recs = cside.records(target, ct)
        rt = RTypes(types, ptr)
        long = "i64" if ptr == 8 else "i32"
        fix = lambda s: s.replace("ulong", "u" + long[1:]).replace("long", long)
        for e in mir["externs"]:
            if e["crate"] != crate:
                continue
            n = e["sym"] or e["name"].split("::")[-1]
            w = "%s:%s" % (target, n)
            c.count("extern functions")
            if n not in sigs:
                c.bad("declared in C", w, "no C declaration of %s" % n)
                continue
            c.decide(n in defined, "defined in C", w, "%s has no definition in the C files that are built" % n)
            cr, cp, cv = sigs[n]
            rp = [rt.canon(i) for i in e["in"]]
            rr = rt.canon(e["out"])
            cp = [fix(x) for x in cp]
            cr = fix(cr)
            c.decide(cp == rp, "parameters", w, "C: (%s) Rust: (%s)" % (", ".join(cp), ", ".join(rp)))
            c.decide(cr == rr, "result", w, "C: %s Rust: %s" % (cr, rr))
            c.decide(cv == e["var"], "variadic", w, "differs")
        acc = bit_accessors(mir, "b_wasm" if target == "wasm32" else "qhull_sys")
        for a in mir["adts"]:
            if a["crate"] != crate or not a["repr_c"]:
                continue
            if crate == "vharness" and "b_wasm" not in a["name"]:
                continue
            name = a["name"].split("::")[-1]
            t = types[a["ty"]]
            if not t.get("v"):
                continue
            fs = t["v"][0]["f"]
            if all(IGN.match(n) for n, _ in fs) or name.startswith("__"):
                continue
            w = "%s:%s" % (target, name)
            c.count("structures")
            anon = None
            if name in recs:
                rec = recs[name]
            else:
                m = re.match(r"^(\w+)__bindgen_ty_\d+$", name)
                cand = [r for k, r in recs.items() if m and k.startswith(m.group(1) + "::(")]
                if len(cand) != 1:
                    c.unk("record", w, "no C record of that name")
                    continue
                rec = cand[0]
            size, align, offs = rt.struct(t)
            if target == "unix64":
                c.decide((size, align, offs) == (a["size"] // 8, a["align"] if isinstance(a["align"], int) else align,
                                                 [o // 8 for o in a["offs"]]),
                         "layout model", w, "rustc disagrees with the repr(C) model: %s vs %s" % ((size, align, offs), a))
            c.decide((size, align) == (rec["size"], rec["align"]), "size and alignment", w,
                     "Rust %d/%d C %d/%d" % (size, align, rec["size"], rec["align"]))
            cf = {f["name"]: f for f in rec["fields"] if f["depth"] == 1}
            seen = set()
            units = {}
            for (fn, ft), off in zip(fs, offs):
                if fn.startswith("_bitfield_") and not fn.startswith("_bitfield_align"):
                    units[len(units)] = (off, rt.layout(ft)[0])
                if IGN.match(fn):
                    continue
                cn = fn if fn in cf else fn.rstrip("_")
                fw = w + "." + fn
                c.count("fields")
                if cn not in cf:
                    c.bad("field exists in C", fw, "no such field in C")
                    continue
                seen.add(cn)
                f = cf[cn]
                c.decide(f["off"] == off, "field offset", fw, "Rust %d C %d" % (off, f["off"]))
                rty = rt.canon(ft)
                cty = fix(ct.canon(f["ty"]))
                if "unnamed" in f["ty"] or "anonymous" in f["ty"]:
                    c.decide("bindgen_ty" in rty, "field type", fw, "%s vs %s" % (f["ty"], rty))
                else:
                    c.decide(cty == rty, "field type", fw, "C %s Rust %s" % (cty, rty))
            for (st, fn, op), vs in acc.items():
                if st == name and op == "new":
                    want = sorted((f["off"] * 8 + f["lo"] - units[0][0] * 8, f["bits"]) for f in cf.values() if f["lo"] is not None)
                    if any(None in v for v in vs):
                        c.unk("bit field constructor", w + "." + fn, "not understood")
                    else:
                        c.decide(sorted(vs) == want, "bit field constructor", w + "." + fn, "sets other bits than C's fields")
            for cn, f in cf.items():
                if f["lo"] is not None:
                    fw = w + "." + cn
                    c.count("bit fields")
                    bit = f["off"] * 8 + f["lo"]
                    for op in ("get", "set"):
                        vs = acc.get((name, cn, op))
                        if not vs:
                            if op == "get":
                                c.bad("bit field accessor", fw, "no Rust accessor")
                            continue
                        for v in vs:
                            if v[0] is None or v[1] is None or len(units) != 1:
                                c.unk("bit field position", fw, "accessor not understood")
                                continue
                            c.decide((units[0][0] * 8 + v[0], v[1]) == (bit, f["bits"]), "bit field position", fw + ":" + op,
                                     "Rust bit %d width %d, C bit %d width %d" % (units[0][0] * 8 + v[0], v[1], bit, f["bits"]))
                elif cn not in seen:
                    c.bad("field exists in Rust", w + "." + cn, "C field is missing in Rust")
        accessors(c, target, sigs)
    c.assumptions = ["clang's record layouts are those of the compiler the library is built with (System V / wasm32 C ABI)",
                     "for wasm32 the Rust layout is computed with the repr(C) rules, checked against rustc on the native target"]
    return c.finish()


def norm(fn):
    params, blocks, entry = fn
    names = {}

    def r(m):
        return names.setdefault(m.group(0), "%%v%d" % len(names))
    res = []
    for b in blocks.values():
        for i in b:
            i = re.sub(r", !\w+ !\d+|!tbaa !\d+|#\d+|, align \d+", "", i)
            res.append(re.sub(r"%(?!struct|union)[\w.]+", r, i).replace("tail ", "").replace("notail ", ""))
    return res


def accessors(c, target, sigs):
    names = [n for n in sigs if n.startswith("rqh_get_") or n in ("rqh_stdin", "rqh_stdout", "rqh_stderr", "rqh_malloc")]
    with open(os.path.join(cside.SYS, "src/ext.c")) as f:
        src = f.read()
    # which fields exist
    _, ct = None, None
    rec = cside.records(target, ct)["qhT"]
    fields = {f["name"] for f in rec["fields"] if f["depth"] == 1}
    src += "\n"
    for n in names:
        ret = sigs[n][0]
        if n.startswith("rqh_get_"):
            fld = n[len("rqh_get_"):]
            if fld not in fields:
                c.unk("accessor", "%s:%s" % (target, n), "qhT has no field %s" % fld)
                continue
            src += ("__typeof__(((qhT*)0)->%s) vpval_%s(qhT *q) { return q->%s; }\n"
                    "__typeof__(((qhT*)0)->%s) *vpptr_%s(qhT *q) { return &q->%s; }\n") % (fld, n, fld, fld, n, fld)
        elif n == "rqh_malloc":
            src += "qhT *vpval_rqh_malloc(void) { return malloc(sizeof(qhT)); }\n"
        else:
            src += "FILE *vpval_%s(void) { return %s; }\n" % (n, n[4:])
    txt = cside.clang([a for a in cside.flags(target) if a != "-ansi"] + ["-std=gnu89", "-O2", "-S", "-emit-llvm", "-o", "-", "-x", "c", "-Isrc", "-"], input=src)
    fns = cside.ir_functions(txt)
    for n in names:
        w = "%s:%s" % (target, n)
        if n not in fns or "vpval_" + n not in fns:
            continue
        c.count("shim accessors")
        got = norm(fns[n])
        want = [norm(fns["vpval_" + n])] + ([norm(fns["vpptr_" + n])] if "vpptr_" + n in fns else [])
        # a scalar field is returned, other fields are pointed to
        isptr = got == want[-1]
        c.decide(got in want, "accessor", w, "returns something else than the field it is named after: %s" % " ; ".join(got))
