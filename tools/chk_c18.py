"""C18: the command line accepts exactly well-formed palettes and saves what it says."""
from common import Check
import vbuild, strs, geo, capi, eng, pipe
from terms import *
from eng import St, Interp, Abort, segs_of, open_, length, isub
from strs import nibbles, decide, byte, string, HEX

OPEN, DECODE, RGB8 = "image::io::Reader::open", "image::io::Reader::decode", "image::DynamicImage::into_rgb8"
GOOD = ["DDDDDD", "LLLLLL", "UUUUUU", "DLUDLU", "LUDULD"]


def shapes():
    """(text as classes, accepted)"""
    out = [(g, True) for g in GOOD]
    out += [(",".join(p), True) for p in (("DLUDLU", "UUUDDD"), ("LLLLLL",) * 3, ("DDDDDD", "LULULU", "UDUDUD", "DLDLDL"))]
    bad = ["", "D", "DD", "DDD", "DDDD", "DDDDD", "DDDDDDD", "DDDDDDDD", "DLUDLUDLU", "DDDDDDDDDDDD", "#DDDDDD", " DDDDDD", "DDDDDD ", "+DDDDDD", "S", "nm", "nmnmnm", "nmDDDD", "DDDDnm",
           "DDnmDD", "DGDDDD", "DDDDDV", "GGGGGG", "VVVVVV", "DnmDDD", "DDDnmD", "DDDDDnm", "++++++", "+D+D+D", "-D-D-D", "SSSSSS", "      "]
    for c in "+- #SGV":
        for i in range(6):
            bad.append("DLUDLU"[:i] + c + "DLUDLU"[i + 1:])
    out += [(x, False) for x in bad]
    for x in ("", "DDDDD", "DDDDDDD", "+DDDDD", "DDSDDD", "DDDDDS", " DDDDDD", "DDDDDD ", "DDDDDDDDDDDD", "nmDDDD"):
        out += [(x + ",LLLLLL", False), ("LLLLLL," + x, False), ("LLLLLL," + x + ",UUUUUU", False)]
    out += [(",", False), (",,", False), ("DDDDDDSLLLLLL", False), ("DDDDDD LLLLLL", False), ("DDDDDD,,LLLLLL", False), ("LLLLLL,,", False)]
    return out


def ty(d, i):
    return d["types"][i]


def parsers(c, d, listty):
    """the functions and closures from a string to a palette or an error"""
    res = []
    for b in d["bodies"]:
        if not b["name"].startswith(("vharness::cli::", "<vharness::cli::")):
            continue
        n = 2 if "{closure" in b["name"] else 1
        if b["argc"] != n:
            continue
        a, r = ty(d, b["locals"][n]), ty(d, b["locals"][0])
        if a["k"] == "ref" and ty(d, a["e"])["k"] == "str" and r["k"] == "adt" and r["n"].endswith("Result") and r["a"][0] == listty:
            res.append(b)
    return res


def colours(v):
    """the components of every colour of a palette value"""
    while v.op == "agg" and v.a[0] not in ("arr",) and len(v.a) == 3:
        v = v.a[2]
    es = []
    if v.op in ("dedup", "sorted", "rev"):
        return v.op
    if v.op == "agg" and v.a[0] == "arr":
        es = list(v.a[2:])
    else:
        b, ss = segs_of(v)
        if b is not eng.EMPTY or any(s.op != "one" for s in ss):
            return None
        for s in ss:
            g = decide(s.a[0])
            if g is TRUE:
                es.append(s.a[1])
            elif g is not FALSE:
                return None
    r = []
    for e in es:
        while e.op == "agg" and e.a[0] != "arr" and len(e.a) == 3:
            e = e.a[2]
        if e.op != "agg" or e.a[0] != "arr":
            return None
        r.append([decide(x) for x in e.a[2:]])
    return r


def parser(c, d, b):
    import terms
    w = b["name"].split("vharness::cli::")[-1]
    res = {}
    terms.hook[0] = strs.truth
    for s, good in shapes():
        m = dict(geo.MODELS)
        m.update(strs.M)
        I = Interp(d, m)
        c.count("palette shapes")
        q = "'%s'" % s
        try:
            v = decide(I.run(b, [UNIT] * (b["argc"] - 1) + [eng.vr(string(s, "s"))], St(), mk("fr", "x", s)))
        except (Abort, RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
            c.unk("palette text", w, "%s: %s %s" % (q, type(e).__name__, str(e)[:100]))
            continue
        ls = list(leaves(v))
        acc = [x for x in ls if x.op == "agg" and x.a[0] == "Result" and x.a[1] == 0]
        rej = [x for x in ls if x is BOT or x.op == "agg" and x.a[0] == "Result" and x.a[1] == 1]
        if len(acc) + len(rej) != len(ls):
            c.unk("palette text", w, "%s gives %s" % (q, show(v)[:200]))
            continue
        if v.op == "ite" and acc and rej and all(x.op == "is1" and x.a[0].op == "app" and x.a[0].a[0].endswith("from_str_radix") for x in atoms(v)):
            # numbers that overflow for some digits and not for others
            if good:
                res.setdefault("a well-formed palette is accepted", []).append(q + " for some digits only")
            else:
                res.setdefault("a malformed palette is rejected", []).append(q + " for some digits")
            continue
        if v.op == "ite" and acc and rej:
            # depends on a condition that the classes leave open
            c.unk("palette text", w, "%s is accepted on a condition: %s" % (q, show(v.a[0])[:200]))
            continue
        if not good:
            if acc:
                res.setdefault("a malformed palette is rejected", []).append(q)
            else:
                c.count("rejected shapes")
            continue
        if not acc:
            res.setdefault("a well-formed palette is accepted", []).append(q)
            continue
        cs = colours(acc[0].a[2]) if len(acc) == 1 else None
        want = [(p, k * 7) for k, p in enumerate(s.split(","))]
        if type(cs) is str:
            res.setdefault("one colour for each piece", []).append("the colours are " + {"dedup": "not repeated", "sorted": "sorted", "rev": "reversed"}[cs])
            continue
        if cs is None:
            c.unk("colours of a palette", w, "%s gives %s" % (q, show(acc[0])[:200]))
            continue
        if len(cs) != len(want):
            res.setdefault("one colour for each piece", []).append("%s gives %d" % (q, len(cs)))
            continue
        for (p, at), col in zip(want, cs):
            for k, name in enumerate(("red", "green", "blue")):
                n = nibbles(col[k]) if k < len(col) else None
                hi, lo = byte(p[2 * k], "s", at + 2 * k), byte(p[2 * k + 1], "s", at + 2 * k + 1)
                if n is not None and n.keys() == {0, 1} and all(x.op == "byte" and x.a[1:] == y.a[1:] for x, y in ((n[1], hi), (n[0], lo))):
                    c.count("components")
                elif n is None and k < len(col):
                    c.unk("component", w, "%s of %s: %s" % (name, q, show(col[k])[:200]))
                else:
                    got = "no component" if n is None else "the digits at " + ", ".join(str(x.a[2] - at) if x.op == "byte" else show(x) for i, x in sorted(n.items(), reverse=True)) if n else "zero"
                    res.setdefault(name + " is the pair of digits at its place", []).append("%s: %s" % (q, got))
    terms.hook[0] = None
    for what in ("a malformed palette is rejected", "a well-formed palette is accepted", "one colour for each piece", "red is the pair of digits at its place",
                 "green is the pair of digits at its place", "blue is the pair of digits at its place"):
        if what in res:
            c.bad(what, w, "; ".join(res[what][:4]))
        else:
            c.ok(what, w)


class Recorder:
    def __init__(self, d, variant, fields, cli, cmd):
        m = dict(geo.MODELS)
        m.update(strs.M)
        self.I = I = Interp(d, m)
        wrap = lambda v: agg(cli["n"], 0, *[v if f[1] == cmd["id"] else var("cli", f[0]) for f in cli["v"][0]["f"]])
        value = agg(cmd["n"], variant, *[var("opt", f) for f in fields])
        for n in ("parse", "parse_from"):
            I.models["clap::Parser::" + n] = lambda cx: wrap(value)
        I.models["clap::Parser::try_parse"] = lambda cx: ok(wrap(value))
        I.models["image::ImageBuffer::save"] = I.models["image::DynamicImage::save"] = I.models["image::ImageBuffer::save_with_format"] = self.save
        I.models["image::io::Reader::open"] = I.models["image::io::Reader::decode"] = I.models["image::open"] = self.io
        I.contracts = {capi.APP + n: capi.op_(n) for n in capi.OPS}
        self.sites = {}

    @property
    def saves(self):
        """(condition, value, path, condition of the round) per place where an image is saved"""
        for rs in self.sites.values():
            if any(r[3] for r in rs):
                first = [r for r in rs if not r[3]]
                yield first[0][0] if first else None, rs[-1][1], rs[-1][2], rs[-1][0]
            else:
                for pc, v, p, _ in rs:
                    yield pc, v, p, None

    def save(self, cx):
        v, p = cx.args[0], cx.args[1]
        while v.op in ("ref", "vr"):
            v = cx.load(v)
        while p.op in ("ref", "vr"):
            p = cx.load(p)
        self.sites.setdefault((cx.fr, id(cx.callee)), []).append((cx.st.pc, canon_(cx.pure(v)), canon_(cx.pure(p)), list(cx.I.loops)))
        return mk("app", "save", cx.pure(v), cx.pure(p))

    def io(self, cx):
        vs = []
        for a in cx.args:
            while a.op in ("ref", "vr"):
                a = cx.load(a)
            vs.append(cx.pure(a))
        n = cx.key
        return mk("app", n, *vs)


def canon_(t):
    """values without the wrappers of Result and Option that an unwrap took off"""
    from canon import rewrite
    def f(x):
        if x.op in ("fld", "vfld", "f") and len(x.a) >= 1 and type(x.a[0]) is T and x.a[0].op == "app" and x.a[0].a[0] in FALLIBLE:
            return x.a[0]
        return x
    return rewrite(t, f)


FALLIBLE = {OPEN, DECODE, "image::open", "DecomposedImage::new", "DecomposedImage::reconstruct", "DecomposedImage::get_channel_grayscale"}


def app(t, *names):
    return t.op == "app" and t.a[0] in names


def source(t):
    """the option that an image was read from, or None"""
    t = unwrap(t)
    for _ in range(9):
        if t.op == "vr":
            t = unwrap(t.a[0])
        if app(t, RGB8, DECODE, OPEN, "image::open", "image::DynamicImage::to_rgb8"):
            t = unwrap(t.a[1])
        else:
            break
    return opt(t)


def unwrap(t):
    while t.op in ("f", "fld") or t.op == "agg" and t.a[0] in ("Result", "Option") and len(t.a) == 3:
        if t.op == "agg":
            t = t.a[2]
        elif type(t.a[0]) is T and t.a[0].op == "app":
            t = t.a[0]
        else:
            break
    return t


def opt(t):
    """the command line option a value is, below casts, fields and references"""
    while True:
        if t.op == "v" and t.a and t.a[0] == "opt":
            return t.a[1]
        if t.op == "cast":
            t = t.a[2]
        elif t.op in ("f", "fld", "vr", "box") and type(t.a[0]) is T:
            t = t.a[0]
        elif t.op == "app" and t.a[0].split("::")[-1] in ("into", "deref", "clone", "as_path", "as_ref", "as_os_str", "to_path_buf", "to_owned", "borrow", "new", "from", "as_slice", "to_vec") and len(t.a) == 2:
            t = t.a[1]
        else:
            return None


def opts(t):
    return {x.a[1] for x in find(t, lambda x: x.op == "v" and x.a and x.a[0] == "opt")}


def given(c, what, w, t, want):
    """the value is the option of this name"""
    o = opt(t)
    if o == want:
        c.ok(what, w)
        return True
    if o is not None or num(t) is not None or t.op == "c":
        c.bad(what, w, "it is %s, not %s" % (o or show(t), want))
    elif t.op == "sl" and opt(t.a[0]) == want and (num(t.a[1]) or num(isub(t.a[2], length(t.a[0])))):
        c.bad(what, w, "it is only a part of it: " + show(t)[:150])
    elif opts(t) and want not in opts(t):
        c.bad(what, w, "it is made of %s, not of %s" % (", ".join(sorted(opts(t))), want))
    else:
        c.unk(what, w, show(t)[:200])
    return False


CHANGES = {"fliph", "flipv", "rotate90", "rotate180", "rotate270", "crop", "crop_imm", "resize", "resize_exact", "resize_to_fill", "thumbnail", "thumbnail_exact", "blur", "unsharpen",
           "filter3x3", "adjust_contrast", "brighten", "huerotate", "grayscale", "invert", "contrast", "flip_horizontal", "flip_vertical"}


def image_of(c, what, w, t, want):
    o = source(t)
    ch = [x.a[0].split("::")[-1] for x in find(t, lambda x: x.op in ("app", "mut") and type(x.a[0]) is str and x.a[0].startswith(("image::DynamicImage::", "image::imageops::")))]
    ch = [x for x in ch if x in CHANGES]
    if o == want:
        c.ok(what, w)
    elif ch:
        c.bad(what, w, "the image was changed: " + ", ".join(ch))
    elif o is not None:
        c.bad(what, w, "it is read from %s, not %s" % (o, want))
    else:
        c.unk(what, w, show(t)[:200])


def hexpart(p):
    """(value) if a part is two hexadecimal digits of a byte; False if it certainly is not; None"""
    if p.op == "fmt":
        kind, fl, wd, pr, v, tn = p.a
        if kind not in ("lower_hex", "upper_hex"):
            return False
        if tn.replace("&", "").strip() != "u8":
            return None
        if wd != 2 or not fl >> 24 & 1 or fl >> 21 & 1 or fl >> 23 & 1:
            return False
        return v
    if p.op in ("shown", "c"):
        return False
    return None


def printed(c, w, t, palette):
    """the printed text is the palette"""
    if t.op != "text":
        c.unk("printed palette", w, show(t)[:200])
        return
    ps = list(t.a)
    if len(ps) != 2 or ps[0].op != "joined" or ps[1].op != "c" or ps[1].a[0].strip("\r\n"):
        c.unk("printed palette", w, show(t)[:300])
        return
    s, sep = ps[0].a
    if sep.op != "c":
        c.unk("printed palette", w, show(sep))
    elif sep.a[0] != ",":
        c.bad("printed palette", w, "colours are separated by %r" % sep.a[0])
    else:
        c.ok("printed colours are separated by commas", w)
    b, ss = segs_of(s)
    if b is not eng.EMPTY or len(ss) != 1 or ss[0].op != "rep":
        c.unk("printed palette", w, show(s)[:200])
        return
    vs, body = open_(ss[0])
    k = vs[0]
    off = isub(body[0].a[0], length(palette))
    if num(off) not in (None, 0):
        c.bad("every colour is printed", w, "%d colours are not printed" % -num(off))
        return
    if num(off) is None:
        c.unk("every colour is printed", w, show(body[0].a[0])[:200])
    else:
        c.ok("every colour is printed", w)
    if len(body) != 2 or body[1].op != "one" or body[1].a[0] is not TRUE or body[1].a[1].op != "text":
        c.unk("printed colour", w, show(body[1])[:200])
        return
    es = list(body[1].a[1].a)
    hs = [hexpart(p) for p in es]
    if any(h is False for h in hs):
        c.bad("a colour is printed as six hexadecimal digits", w, show(es[hs.index(False)])[:200])
        return
    if any(h is None for h in hs):
        c.unk("printed colour", w, show(body[1].a[1])[:200])
        return
    if len(hs) != 3:
        c.bad("a colour is printed as six hexadecimal digits", w, "%d components" % len(hs))
        return
    c.ok("a colour is printed as six hexadecimal digits", w)
    el = eng.index(palette, k)
    for i, (h, name) in enumerate(zip(hs, ("red", "green", "blue"))):
        want = eng.index(fld(el, 0), models_i(i))
        if h is want:
            c.ok("printed " + name, w)
        elif any(h is eng.index(fld(el, 0), models_i(j)) for j in range(3)):
            c.bad("printed " + name, w, "it is another component: " + show(h)[:120])
        else:
            c.unk("printed " + name, w, show(h)[:200])


def models_i(i):
    return const(i, "int")


def run():
    c = Check("C18", "the palette parser analysed on strings known by shape (the class of each byte: digit, letter, sign, space, other, non-ASCII), and the value-flow graph "
              "of the command: which options, images and palettes reach each operation, what is printed and what is saved where")
    pipe.run(lambda: go(c), c)
    return c.finish()


def go(c):
    d = vbuild.mir()
    find_ = lambda n: [dict(t, id=i) for i, t in enumerate(d["types"]) if t["k"] == "adt" and t["n"].startswith("vharness::cli::") or t["k"] == "adt" and t["n"].startswith("cli::")]
    adts = find_(0)
    cmd = [t for t in adts if t.get("v") and len(t["v"]) > 1 and any(f[0] == "decomposition_palette" for v in t["v"] for f in v["f"])]
    cli = [t for t in adts if t.get("v") and len(t["v"]) == 1 and cmd and any(f[1] == cmd[0]["id"] for f in t["v"][0]["f"])]
    mains = sorted([b for b in d["bodies"] if b["name"] in ("vharness::cli::main_inner", "vharness::cli::main")], key=lambda b: len(b["name"]), reverse=True)
    if not cmd or not cli or not mains:
        c.unk("command found", "vharness::cli", "the command line's types or entry point have another form")
        return
    cmd, cli = cmd[0], cli[0]
    rec = [(i, v) for i, v in enumerate(cmd["v"]) if any(f[0] == "decomposition_palette" for f in v["f"])][0]
    listty = [f[1] for f in rec[1]["f"] if f[0] == "decomposition_palette"][0]
    ps = parsers(c, d, listty)
    if not ps:
        c.unk("palette parser found", "vharness::cli", "no function from a string to " + ty(d, listty)["s"])
    for b in ps:
        parser(c, d, b)
    calls = d["bodies"]
    for i, v in enumerate(cmd["v"]):
        fields = [f[0] for f in v["f"]]
        R = Recorder(d, i, fields, cli, cmd)
        try:
            R.I.run(mains[0], [], St(), mk("fr", "main", i))
        except (Abort, RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
            c.unk("command analysed", v["n"], "%s: %s" % (type(e).__name__, str(e)[:200]))
            continue
        if "decomposition_palette" in fields:
            recolour(c, v["n"], R)
        else:
            generate(c, v["n"], R)


def generate(c, w, R):
    pr = [e for e in R.I.log if e[0] == "_print"]
    pals = set()
    for e in pr:
        pals |= set(find(e[2], lambda x: app(x, "compute_palette")))
    if not pr or len(pals) != 1:
        c.unk("palette printed", w, "%d prints, %d palettes" % (len(pr), len(pals)))
        return
    p = pals.pop()
    image_of(c, "palette of the input image", w, p.a[1], "input_image")
    for n, k in (("min_size", 2), ("max_size", 3), ("error_bound", 4)):
        given(c, n + " of the palette", w, p.a[k], n)
    es = [e for e in pr if find(e[2], lambda x: x is p)]
    if len(es) == 1:
        printed(c, w, es[0][2], p)
    else:
        c.unk("printed palette", w, "%d prints of the palette" % len(es))


def recolour(c, w, R):
    out, chan = [], []
    unknown = []
    for pc, v, path, rnd in R.saves:
        v = unwrap(v)
        if app(v, "DecomposedImage::reconstruct"):
            out.append((pc, v, path))
        elif app(v, "DecomposedImage::get_channel_grayscale"):
            chan.append((pc, v, path, rnd))
        else:
            unknown.append(v)
    for v in unknown:
        s = source(v)
        if s is not None:
            c.bad("what is saved", w, "the image read from %s" % s)
        else:
            c.unk("what is saved", w, show(v)[:200])
    if not out:
        (c.unk if unknown or not R.sites else c.bad)("the recoloured image is saved", w, "no save of a reconstruction")
    seen = set()
    for pc, v, path in out:
        if v in seen:
            continue
        seen.add(v)
        decomposition(c, w, v.a[1])
        given(c, "reconstructed with the reconstruction palette", w, v.a[2], "reconstruction_palette")
        given(c, "the recoloured image goes to the output file", w, path, "output_image")
        refused(c, w, pc, v)
        cond = [a for a in atoms(pc) if "save_individual_channels" in opts(a)]
        if cond:
            c.bad("the recoloured image is always saved", w, "it depends on save_individual_channels")
    if not chan:
        (c.unk if unknown or not R.sites else c.bad)("channels are saved", w, "no save of a channel")
    done = set()
    ks = []
    for pc, v, path, rnd in chan:
        key = (v.a[1], v.a[2], path)
        if key in done:
            continue
        done.add(key)
        decomposition(c, w + " channels", v.a[1])
        k = v.a[2]
        ks.append((k, rnd))
        if pc is None:
            c.unk("channels are saved when asked for", w, "the condition of the loop was not seen")
        elif not [a for a in atoms(pc) if "save_individual_channels" in opts(a)]:
            if find(pc, lambda x: x.op not in ("ite", "op", "app", "lin", "c", "len", "v", "f", "not")):
                c.unk("channels are saved when asked for", w, show(pc)[:200])
            else:
                c.bad("channels are saved when asked for", w, "they are saved whether or not save_individual_channels is given: " + show(pc)[:150])
        elif with_option(pc, True) is FALSE:
            c.bad("channels are saved when asked for", w, "they are saved only when save_individual_channels is not given")
        elif with_option(pc, False) is not FALSE:
            c.unk("channels are saved when asked for", w, show(pc)[:200])
        else:
            c.ok("channels are saved when asked for", w)
        channel_names(c, w, k, path)
    every(c, w, ks)


def every(c, w, ks):
    """the channels that are saved are all of them"""
    what = "every channel is saved"
    if not ks:
        return
    if all(num(k) is not None for k, _ in ks):
        c.bad(what, w, "only channel %s" % ", ".join(sorted({show(k) for k, _ in ks})))
        return
    if len(ks) != 1:
        c.unk(what, w, "%d places that save a channel" % len(ks))
        return
    k, rnd = ks[0]
    if rnd is None:
        c.unk(what, w, show(k)[:200])
        return
    base = [x for x in find(k, lambda x: x.op == "v" and x.a and x.a[0] == "k")]
    if len(set(base)) != 1:
        c.unk(what, w, show(k)[:200])
        return
    off = isub(k, base[0])
    at = atoms(rnd)
    lens = [a for a in at if opts(a) & {"decomposition_palette", "reconstruction_palette"} and find(a, lambda x: x is base[0])]
    rest = [a for a in at if a not in lens and find(a, lambda x: x is base[0])]
    if rest:
        # a further condition on the number of the channel
        if all(not find(a, lambda x: x.op in ("app", "is1")) for a in rest):
            c.bad(what, w, "a channel is saved only when " + show(rnd)[:200])
        else:
            c.unk(what, w, show(rnd)[:200])
        return
    if len(lens) != 1 or lens[0].op != "op" or lens[0].a[0] != "<":
        c.unk(what, w, show(rnd)[:200])
        return
    l, r = lens[0].a[1], lens[0].a[2]
    n = [x for x in find(lens[0], lambda x: x.op == "len")]
    if len(set(n)) != 1:
        c.unk(what, w, show(rnd)[:200])
        return
    # first: k = 0; last: the largest k for which the condition holds
    d = isub(isub(r, l), isub(n[0], base[0]))       # (r - l) - (len - k): 0 when the loop runs while k < len
    if num(off) is None or num(d) is None:
        c.unk(what, w, show(rnd)[:200])
        return
    if num(off) == 0 and num(d) == 0:
        c.ok(what, w)
    else:
        c.bad(what, w, "channels %d to len %+d" % (num(off), num(d) + num(off) - 1))


def channel_names(c, w, k, path):
    if True:
        # the colour in the file's name belongs to the channel
        cols = [x for x in find(path, lambda x: x.op == "idx" and "decomposition_palette" in opts(x.a[0]) or x.op == "idx" and "reconstruction_palette" in opts(x.a[0]))]
        if any("reconstruction_palette" in opts(x) for x in cols):
            c.bad("a channel's file is named after its colour", w, "the name has a colour of the reconstruction palette")
        elif any(num(isub(x.a[1], k)) not in (None, 0) for x in cols if type(x.a[1]) is T and opts(x.a[0]) and x.a[0].op in ("v", "f")):
            c.bad("a channel's file is named after its colour", w, "the name has the colour of another channel")
        elif cols:
            c.ok("a channel's file is named after its colour", w)


def with_option(pc, given_):
    """the condition when the channels option is or is not given"""
    def go(x):
        if x is TRUE or x is FALSE or x.op != "ite":
            return x
        if opts(x.a[0]) == {"save_individual_channels"}:
            return go(x.a[1] if given_ else x.a[2])
        a, b = go(x.a[1]), go(x.a[2])
        return a if a is b else mk("ite", x.a[0], a, b)
    return go(pc)


def decomposition(c, w, t):
    t = unwrap(t)
    if not app(t, "DecomposedImage::new"):
        c.unk("decomposition", w, show(t)[:200])
        return
    given(c, "decomposed with the decomposition palette", w, t.a[2], "decomposition_palette")
    q = unwrap(t.a[1])
    if app(q, "ImageWeights::new"):
        image_of(c, "weights of the input image", w, q.a[1], "input_image")
    else:
        c.unk("weights of the input image", w, show(q)[:200])


def refused(c, w, pc, v):
    """no save is reached with palettes of different sizes"""
    what = "palettes of different sizes are refused"
    at = [a for a in atoms(pc) if {"decomposition_palette", "reconstruction_palette"} <= opts(a)]
    if not at:
        if find(pc, lambda x: app(x, "DecomposedImage::reconstruct")):
            c.ok(what, w, "the reconstruction's failure ends the command")
        else:
            c.unk(what, w, show(pc)[:200])
        return
    ls = [mk("len", x) for a in at for x in {y.a[0] for y in find(a, lambda y: y.op == "len")}]
    if len(set(ls)) != 2:
        c.unk(what, w, show(pc)[:200])
        return
    # which of the three orders of the two sizes reaches the save
    a, b = sorted(set(ls), key=lambda t: sorted(opts(t)))
    if opts(a) != {"decomposition_palette"} or opts(b) != {"reconstruction_palette"}:
        c.unk(what, w, show(pc)[:200])
        return
    for m, n, name in ((5, 4, "a longer decomposition palette"), (4, 5, "a longer reconstruction palette"), (9, 4, "a longer decomposition palette"), (4, 9, "a longer reconstruction palette"), (5, 5, "equal sizes")):
        r = possible(pc, {a: m, b: n})
        if r is None:
            c.unk(what, w, show(pc)[:200])
        elif r != (m == n):
            c.bad(what, w, "%s %s" % (name, "reaches the save" if r else "is refused"))
        else:
            c.count("orders of the sizes")
            c.ok(what, w, name)


def possible(pc, env):
    """whether the condition can hold for these sizes (other conditions may go either way)"""
    from ints import ival
    def go(x):
        if x is TRUE or x is FALSE:
            return x is TRUE
        if x.op == "ite":
            r = val(x.a[0])
            if r == "free":
                p, q = go(x.a[1]), go(x.a[2])
                return None if p is None or q is None else p or q
            return None if r is None else go(x.a[1] if r else x.a[2])
        r = val(x)
        return True if r == "free" else r
    def val(a):
        if not any(find(a, lambda y: y is k) for k in env):
            return "free"
        if a.op == "op" and a.a[0] in ("<", "==") and len(a.a) == 3:
            p, q = ival(a.a[1], env), ival(a.a[2], env)
            if p is not None and q is not None:
                return p < q if a.a[0] == "<" else p == q
        return "free" if not {"decomposition_palette", "reconstruction_palette"} <= opts(a) else None
    return go(pc)
