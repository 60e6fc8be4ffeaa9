"""Text by shape: strings as sequences of bytes known only by their class, and formatted text as a sequence of parts.

A string is an array of byte terms ("byte", class, position). Every predicate that the standard library offers on strings
and characters is decided from the classes alone, or left as an unknown condition."""
from terms import *
from eng import iadd, imul, index, length, slice_, arr2, seq, one, EMPTY, segs_of, open_, St, Abort
import eng, models, geo
from models import I0, D, it, follow, rangeof, toiter, num

CLASSES = {"D": range(48, 58), "L": range(97, 103), "U": range(65, 71), "+": [43], "-": [45], " ": [32], "#": [35], ",": [44],
           "G": range(103, 123), "V": range(71, 91), "S": [c for c in range(33, 127) if not chr(c).isalnum() and chr(c) not in "+-#,"], "n": range(0xC3, 0xDF), "m": range(0x80, 0xC0)}
HEX = {"D": 48, "L": 87, "U": 55}


def byte(cls, *at):
    return mk("byte", cls, *at)


def string(classes, at):
    return arr2(len(classes), *[byte(c, at, i) for i, c in enumerate(classes)])


def text_of(v):
    """the bytes of a string value, or None"""
    while v.op == "box":
        v = v.a[0]
    if v.op == "agg" and v.a[0] == "arr":
        return list(v.a[2:])
    if v.op == "c" and v.a[1] == "str":
        return [I0(b) for b in v.a[0].encode()]
    if v is EMPTY:
        return []
    return None


def cls(b):
    """the class of a byte or character"""
    while b.op == "cast":
        b = b.a[2]
    if b.op == "byte":
        return b.a[0]
    n = num(b)
    if n is not None:
        for k, s in CLASSES.items():
            if n in s:
                return k
    return None


def members(b):
    n = num(b)
    if n is not None:
        return [n]
    return list(CLASSES[b.a[0]]) if b.op == "byte" else None


def boundary(bs, i):
    return i == len(bs) or 0 <= i < len(bs) and cls(bs[i]) != "m"


def args(cx, n):
    v = cx.args[n]
    v = follow(cx, v)
    return text_of(v)


def is_char(b, c):
    """is the byte the character with this code: True, False or None"""
    m = members(b)
    if m is None:
        return None
    if c not in m:
        return False
    return True if len(m) == 1 else None


def const_char(cx, i):
    v = cx.args[i]
    n = num(v)
    if n is not None:
        return [n]
    v = follow(cx, v)
    if v.op == "c" and v.a[1] == "str":
        return list(v.a[0].encode())
    t = text_of(v)
    if t is not None and all(num(x) is not None for x in t) and len(t) == 1:
        return [num(t[0])]
    return None


M = {}


def model(*keys):
    def d(f):
        for k in keys:
            M[k] = f
        return f
    return d


def sub(bs):
    return vr(arr2(len(bs), *bs))


def vr(v):
    return eng.vr(v)


def matcher(cx, i):
    """the pattern argument as a function of a byte: True, False or None (not decided by its class)"""
    c = const_char(cx, i)
    if c is not None and len(c) == 1:
        return lambda b: is_char(b, c[0])
    v = follow(cx, cx.args[i])
    if v.op == "agg" and v.a[0] == "arr" and all(num(x) is not None for x in v.a[2:]):
        cs = [num(x) for x in v.a[2:]]

        def f(b):
            ks = [is_char(b, c) for c in cs]
            m = members(b)
            return True if True in ks or m is not None and all(x in cs for x in m) else None if None in ks else False
        return f
    t = cx.I.ty(cx.tys[i]) if cx.tys and cx.tys[i] is not None else None
    if t is not None and t["k"] in ("closure", "fndef"):
        def g(b):
            r = models.as_bool(cx.I.apply(cx.args[i], [mk("cast", "u8", "char", b) if num(b) is None else b], cx.st.clone(), mk("fr", cx.fr, "pat")))
            r = decide(r if r.op == "ite" or r in (TRUE, FALSE) else mk("ite", r, TRUE, FALSE))
            return True if r is TRUE else False if r is FALSE else None
        return g
    return None


def pieces(bs, m, inclusive=False):
    parts, cur = [], []
    for b in bs:
        k = m(b)
        if k is None:
            return None
        if k:
            parts.append(cur + [b] if inclusive else cur)
            cur = []
        else:
            cur.append(b)
    return parts + [cur]


@model("core::str::split", "core::str::split_terminator", "core::str::rsplit", "core::str::split_inclusive", "core::str::splitn")
def _(cx):
    n = num(cx.args[1]) if cx.last == "splitn" else None
    bs, m = args(cx, 0), matcher(cx, 2 if cx.last == "splitn" else 1)
    if bs is None or m is None:
        return NotImplemented
    if cx.last == "splitn":
        if n is None:
            return NotImplemented
        parts, cur = [], []
        for b in bs:
            k = m(b)
            if k is None:
                return NotImplemented
            if k and len(parts) + 1 < n:
                parts.append(cur)
                cur = []
            else:
                cur.append(b)
        parts.append(cur)
        parts = parts[:n] if n else []
    else:
        parts = pieces(bs, m, cx.last == "split_inclusive")
        if parts is None:
            return NotImplemented
    if cx.last in ("split_terminator", "split_inclusive") and not parts[-1]:
        parts.pop()
    if cx.last == "rsplit":
        parts = parts[::-1]
    return it(D("srcv", arr2(len(parts), *[sub(p) for p in parts])))


@model("core::str::split_whitespace", "core::str::split_ascii_whitespace", "core::str::lines")
def _(cx):
    bs = args(cx, 0)
    if bs is None or cx.last == "lines":
        return NotImplemented
    parts = pieces(bs, lambda b: pred("is_ascii_whitespace", b))
    if parts is None:
        return NotImplemented
    parts = [p for p in parts if p]
    return it(D("srcv", arr2(len(parts), *[sub(p) for p in parts])))


@model("core::str::split_once", "core::str::rsplit_once")
def _(cx):
    bs, m = args(cx, 0), matcher(cx, 1)
    if bs is None or m is None:
        return NotImplemented
    for i in range(len(bs)) if cx.last == "split_once" else range(len(bs) - 1, -1, -1):
        k = m(bs[i])
        if k is None:
            return NotImplemented
        if k:
            return some(tup(sub(bs[:i]), sub(bs[i + 1:])))
    return NONE_


@model("core::str::find", "core::str::rfind")
def _(cx):
    bs, m = args(cx, 0), matcher(cx, 1)
    if bs is None or m is None:
        return NotImplemented
    for i in range(len(bs)) if cx.last == "find" else range(len(bs) - 1, -1, -1):
        k = m(bs[i])
        if k is None:
            return NotImplemented
        if k:
            return some(I0(i))
    return NONE_


NONE_ = agg("Option", 0)


@model("core::str::len", "std::string::String::len")
def _(cx):
    bs = args(cx, 0)
    return I0(len(bs)) if bs is not None else NotImplemented


@model("core::str::is_empty", "std::string::String::is_empty")
def _(cx):
    bs = args(cx, 0)
    return (TRUE if not bs else FALSE) if bs is not None else NotImplemented


@model("core::str::as_bytes", "std::string::String::as_str", "core::str::trim_matches_none", "std::string::String::as_bytes")
def _(cx):
    bs = args(cx, 0)
    return sub(bs) if bs is not None else NotImplemented


CASE = {"lower": {"U": "L", "V": "G"}, "upper": {"L": "U", "G": "V"}}


@model("core::str::to_owned", "std::string::ToString::to_string", "std::borrow::ToOwned::to_owned", "core::str::to_string")
def _(cx):
    bs = args(cx, 0)
    return arr2(len(bs), *bs) if bs is not None else NotImplemented


def recase(cx, b):
    m = CASE["lower" if "lower" in cx.last else "upper"]
    if num(b) is not None:
        c = chr(num(b))
        return I0(ord(c.lower() if "lower" in cx.last else c.upper())) if num(b) < 128 else b
    if b.op == "cast":
        r = recase(cx, b.a[2])
        return None if r is None else mk("cast", b.a[0], b.a[1], r)
    return mk("byte", m.get(b.a[0], b.a[0]), *b.a[1:]) if b.op == "byte" else None


@model("core::str::to_ascii_lowercase", "core::str::to_ascii_uppercase", "std::str::to_lowercase", "std::str::to_uppercase", "core::str::to_lowercase", "core::str::to_uppercase",
       "std::str::to_ascii_lowercase", "std::str::to_ascii_uppercase")
def _(cx):
    bs = args(cx, 0)
    if bs is None or "ascii" not in cx.last and any(cls(b) in ("n", "m") for b in bs):
        return NotImplemented
    bs = [recase(cx, b) for b in bs]
    return arr2(len(bs), *bs) if None not in bs else NotImplemented


@model("core::num::to_ascii_lowercase", "core::num::to_ascii_uppercase", "core::char::to_ascii_lowercase", "core::char::to_ascii_uppercase")
def _(cx):
    b = follow(cx, cx.args[0])
    r = recase(cx, b)
    return NotImplemented if r is None else r


@model("core::str::bytes", "core::str::chars", "core::str::char_indices")
def _(cx):
    bs = args(cx, 0)
    if bs is None:
        return NotImplemented
    if cx.last == "bytes":
        return it(D("srcv", arr2(len(bs), *bs)))
    cs = [(i, b) for i, b in enumerate(bs) if cls(b) != "m"]
    return it(D("srcv", arr2(len(cs), *[tup(I0(i), b) if cx.last == "char_indices" else b for i, b in cs])))


@model("core::str::trim", "core::str::trim_start", "core::str::trim_end")
def _(cx):
    bs = args(cx, 0)
    if bs is None:
        return NotImplemented
    a, b = 0, len(bs)
    while cx.last != "trim_end" and a < b and cls(bs[a]) == " ":
        a += 1
    while cx.last != "trim_start" and a < b and cls(bs[b - 1]) == " ":
        b -= 1
    return sub(bs[a:b])


@model("core::str::strip_prefix", "core::str::strip_suffix", "core::str::starts_with", "core::str::ends_with", "core::str::trim_start_matches", "core::str::trim_end_matches",
       "core::str::trim_matches", "core::str::contains")
def _(cx):
    bs, m = args(cx, 0), matcher(cx, 1)
    if bs is None or m is None:
        return NotImplemented
    if cx.last == "contains":
        k = [m(b) for b in bs]
        return TRUE if True in k else FALSE if None not in k else NotImplemented
    if cx.last.startswith("trim"):
        a, b = 0, len(bs)
        while cx.last != "trim_end_matches" and a < b:
            k = m(bs[a])
            if k is None:
                return NotImplemented
            if not k:
                break
            a += 1
        while cx.last != "trim_start_matches" and a < b:
            k = m(bs[b - 1])
            if k is None:
                return NotImplemented
            if not k:
                break
            b -= 1
        return sub(bs[a:b])
    end = cx.last in ("strip_suffix", "ends_with")
    k = m(bs[-1 if end else 0]) if bs else False
    if k is None:
        return NotImplemented
    if cx.last in ("starts_with", "ends_with"):
        return TRUE if k else FALSE
    return some(sub(bs[:-1] if end else bs[1:])) if k else NONE_


def pred(name, b, radix=None):
    k = cls(b)
    if k is None:
        return None
    ascii_ = k not in ("n", "m")
    if name == "is_ascii":
        return ascii_
    if name == "is_ascii_hexdigit" or name in ("is_digit", "to_digit") and radix == 16:
        return k in HEX
    if name == "is_ascii_digit" or name in ("is_digit", "to_digit") and radix == 10:
        return k == "D"
    if name == "is_ascii_whitespace" or name == "is_whitespace":
        return None if k in ("n",) else k == " "
    if name == "is_ascii_lowercase":
        return k in ("L", "G")
    if name == "is_ascii_uppercase":
        return k in ("U", "V")
    if name in ("is_ascii_alphanumeric",):
        return None if k == "S" else k in HEX
    if name == "is_ascii_alphabetic":
        return None if k == "S" else k in ("L", "U")
    if name in ("is_numeric", "is_alphanumeric"):
        return None if k in ("n", "m") else k in ("D",) if name == "is_numeric" else k in ("D", "L", "U", "G", "V")
    return None


def fallback(cx):
    h = models.M.get(cx.key) or models.M.get(cx.rkey)
    return h(cx) if h else NotImplemented


@model("core::str::is_ascii", "core::num::is_ascii_hexdigit", "core::num::is_ascii_digit", "core::char::is_ascii_hexdigit", "core::char::is_digit",
       "core::num::is_ascii", "core::char::is_ascii", "core::char::is_ascii_digit", "std::slice::is_ascii", "core::slice::is_ascii",
       "core::char::is_ascii_whitespace", "core::num::is_ascii_whitespace", "core::char::is_whitespace", "core::num::is_ascii_lowercase",
       "core::char::is_ascii_lowercase", "core::num::is_ascii_uppercase", "core::char::is_ascii_uppercase", "core::char::is_ascii_alphanumeric",
       "core::num::is_ascii_alphanumeric", "core::char::is_alphanumeric", "core::char::is_numeric", "core::char::is_ascii_alphabetic",
       "core::num::is_ascii_alphabetic")
def _(cx):
    if "str::" in cx.key or "slice::" in cx.key:
        bs = args(cx, 0)
        if bs is None:
            return NotImplemented
        return TRUE if all(pred("is_ascii", b) for b in bs) else FALSE
    b = follow(cx, cx.args[0])
    r = pred(cx.last, b, num(cx.args[1]) if len(cx.args) > 1 else None)
    if r is None:
        return lit(mk("pred", cx.last, b))
    return TRUE if r else FALSE


def value(b):
    """the value of a hexadecimal digit"""
    k = cls(b)
    return iadd(b, I0(-HEX[k])) if num(b) is None else I0(num(b) - HEX[k])


@model("core::char::to_digit")
def _(cx):
    b = follow(cx, cx.args[0])
    r = pred("to_digit", b, num(cx.args[1]))
    return NotImplemented if r is None else some(value(b)) if r else NONE_


BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "i8": 7, "i16": 15, "i32": 31, "i64": 63, "isize": 63, "i128": 127}


@model("core::num::from_str_radix", "core::num::from_ascii_radix", "core::str::parse")
def _(cx):
    bs = args(cx, 0)
    radix = num(cx.args[1]) if len(cx.args) > 1 else 10
    t = cx.I.ty(cx.retty)
    w = cx.I.ty(t["a"][0])["s"] if t["k"] == "adt" and t["a"] else None
    if bs is None or w not in BITS or radix is None:
        return NotImplemented
    bad = err(mk("app", "ParseIntError", I0(len(bs))))
    if not bs:
        return bad
    if is_char(bs[0], 43) or is_char(bs[0], 45) and w[0] == "i":
        if is_char(bs[0], 45):
            return NotImplemented
        bs = bs[1:]
        if not bs:
            return bad
    x = I0(0)
    low = high = 0
    for b in bs:
        ds = [int(chr(m), 36) if m < 128 and chr(m).isalnum() else 99 for m in members(b)]
        if all(v >= radix for v in ds):
            return bad
        if any(v >= radix for v in ds):
            return NotImplemented
        low, high = low * radix + min(ds), high * radix + max(ds)
        v = value(b) if cls(b) in HEX else iadd(b, I0(-87 if cls(b) == "G" else -55))
        x = iadd(imul(x, I0(radix)), v)
    if low >= 2 ** BITS[w]:
        return bad
    return ok(x) if high < 2 ** BITS[w] else NotImplemented


@model("core::str::get", "core::slice::get")
def _(cx):
    bs = args(cx, 0)
    if bs is None:
        return fallback(cx)
    if "slice" in cx.key:
        i = num(cx.args[1])
        if i is not None:
            return some(vr(bs[int(i)])) if i < len(bs) else NONE_
    r = rangeof(cx, cx.args[1], cx.tys[1], I0(len(bs)))
    if r is None or num(r[0]) is None or num(r[1]) is None:
        return fallback(cx)
    a, b = int(num(r[0])), int(num(r[1]))
    if a > b or b > len(bs) or "str" in cx.key and not (boundary(bs, a) and boundary(bs, b)):
        return NONE_
    return some(sub(bs[a:b]))


@model("core::str::is_char_boundary")
def _(cx):
    bs, i = args(cx, 0), num(cx.args[1])
    return NotImplemented if bs is None or i is None else TRUE if boundary(bs, int(i)) else FALSE


@model("core::str::split_at", "core::slice::split_at")
def _(cx):
    bs, i = args(cx, 0), num(cx.args[1])
    if bs is None or i is None:
        return fallback(cx)
    i = int(i)
    if i > len(bs) or "str" in cx.key and not boundary(bs, i):
        return stop(cx)
    return tup(sub(bs[:i]), sub(bs[i:]))


def stop(cx):
    cx.st.pc = FALSE
    return BOT


@model("std::ops::Index::index", "core::str::traits::index")
def _(cx):
    t = models.tyof(cx.I, cx.tys[0]) if cx.tys and cx.tys[0] is not None else None
    if t is None or t["k"] != "str" and not (t["k"] == "adt" and t["n"].endswith("string::String")):
        return fallback(cx)
    bs = args(cx, 0)
    if bs is None:
        return NotImplemented
    r = rangeof(cx, cx.args[1], cx.tys[1], I0(len(bs)))
    if r is None or num(r[0]) is None or num(r[1]) is None:
        return NotImplemented
    a, b = int(num(r[0])), int(num(r[1]))
    if a > b or b > len(bs) or not (boundary(bs, a) and boundary(bs, b)):
        return stop(cx)
    return sub(bs[a:b])


@model("std::str::from_utf8", "core::str::from_utf8")
def _(cx):
    bs = args(cx, 0)
    if bs is None or any(cls(b) in ("n", "m", None) for b in bs):
        return NotImplemented
    return ok(sub(bs))


# ---------------------------------------------------------------- conditions and values over bytes
def strip(t):
    from canon import rewrite
    return rewrite(t, lambda x: x.a[2] if x.op == "cast" and x.a[0] in ("u8", "char") else x)


def truth(at):
    """truth of a comparison that depends on one byte, if all bytes of its class agree"""
    from ints import ival
    if at.op != "op" or at.a[0] not in ("<", "==") or len(at.a) != 3:
        return None
    l, r_ = strip(at.a[1]), strip(at.a[2])
    at = mk("op", at.a[0], l, r_)
    bs = find(at, lambda x: x.op == "byte")
    bs = list({x for x in bs})
    if len(bs) != 1:
        return None
    r = set()
    for v in CLASSES[bs[0].a[0]]:
        a, b = ival(at.a[1], {bs[0]: v}), ival(at.a[2], {bs[0]: v})
        if a is None or b is None:
            return None
        r.add(a < b if at.a[0] == "<" else a == b)
    return r.pop() if len(r) == 1 else None


def decide(t, memo=None):
    """a term with the conditions that the classes decide resolved, at the top level"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    r = t
    if t.op == "ite":
        v = truth(t.a[0])
        if v is None:
            a, b = decide(t.a[1], memo), decide(t.a[2], memo)
            r = a if a is b else mk("ite", t.a[0], a, b)
        else:
            r = decide(t.a[1] if v else t.a[2], memo)
    memo[t] = r
    return r


def nibbles(t):
    """the hexadecimal digits of an integer, least significant first: None for zero, or the byte that spells the digit; or None"""
    t = strip(t)
    n = num(t)
    if n is not None:
        return {} if n == 0 else None
    if t.op == "cast" and t.a[1] in BITS:
        p = nibbles(t.a[2])
        return p and {k: v for k, v in p.items() if 4 * k < BITS[t.a[1]]}
    if t.op == "op" and t.a[0][:2] == ">>" and num(t.a[2]) is not None and num(t.a[2]) % 4 == 0:
        p = nibbles(t.a[1])
        s = int(num(t.a[2])) // 4
        return p and {k - s: v for k, v in p.items() if k >= s}
    if t.op == "op" and t.a[0][:2] == "<<" and num(t.a[2]) is not None and num(t.a[2]) % 4 == 0:
        p = nibbles(t.a[1])
        s = int(num(t.a[2])) // 4
        return p and {k + s: v for k, v in p.items()}
    if t.op == "op" and t.a[0][:1] == "|":
        p, q = nibbles(t.a[1]), nibbles(t.a[2])
        return None if p is None or q is None or set(p) & set(q) else {**p, **q}
    if t.op == "op" and t.a[0][:1] == "&" and num(t.a[2]) is not None:
        p, m = nibbles(t.a[1]), int(num(t.a[2]))
        ks = {k for k in range(32) if m >> (4 * k) & 15 == 15}
        if m != sum(15 << (4 * k) for k in ks):
            return None
        return p and {k: v for k, v in p.items() if k in ks}
    if t.op == "op" and t.a[0][:1] == "*" and t.a[0][1:] in BITS:
        for m, x in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            s = {16 ** i: i for i in range(32)}.get(num(m))
            if s is not None:
                p = nibbles(x)
                return p and {k + s: v for k, v in p.items() if 4 * (k + s) < BITS[t.a[0][1:]]}
    c, d = eng.lin_parts(t)
    r = {}
    off = 0
    for x, k in d.items():
        s = {16 ** i: i for i in range(32)}.get(k)
        if s is None:
            return None
        if x.op == "byte" and x.a[0] in HEX:
            if s in r:
                return None
            r[s] = x
            off -= HEX[x.a[0]] * k
        else:
            p = nibbles(x) if x is not t else None
            if p is None or any(i + s in r for i in p):
                return None
            r.update({i + s: v for i, v in p.items()})
    return r if off == c else None


# ---------------------------------------------------------------- formatted text
def template(bs):
    """the pieces of a compiled format string: bytes, or (flags, width, precision, argument number)"""
    out, i, nxt = [], 0, 0
    while True:
        n = bs[i]
        i += 1
        if n == 0:
            return out
        if n < 0x80:
            out.append(bytes(bs[i:i + n]))
            i += n
        elif n == 0x80:
            k = bs[i] | bs[i + 1] << 8
            out.append(bytes(bs[i + 2:i + 2 + k]))
            i += 2 + k
        else:
            fl = wd = pr = None
            if n & 1:
                fl = int.from_bytes(bytes(bs[i:i + 4]), "little")
                i += 4
            if n & 2:
                wd = bs[i] | bs[i + 1] << 8
                i += 2
            if n & 4:
                pr = bs[i] | bs[i + 1] << 8
                i += 2
            if n & 8:
                nxt = bs[i] | bs[i + 1] << 8
                i += 2
            if n & 0x30:
                return None           # width or precision taken from an argument
            out.append((fl, wd, pr, nxt))
            nxt += 1


@model("core::fmt::rt::Argument::new_display", "core::fmt::rt::Argument::new_lower_hex", "core::fmt::rt::Argument::new_upper_hex",
       "core::fmt::rt::Argument::new_debug")
def _(cx):
    v = cx.args[0]
    while v.op in ("ref", "vr"):
        v = cx.load(v)
    return mk("fmtarg", cx.last[4:], cx.pure(v), cx.tystr(0))


@model("std::fmt::Arguments::new")
def _(cx):
    t, a = follow(cx, cx.args[0]), follow(cx, cx.args[1])
    bs = None
    if t.op == "bytes":
        bs = list(t.a[0])
    elif text_of(t) is not None and all(num(x) is not None for x in text_of(t)):
        bs = [int(num(x)) for x in text_of(t)]
    ps = template(bs) if bs is not None else None
    if ps is None or text_of(a) is None:
        return NotImplemented
    es = text_of(a)
    out = []
    for p in ps:
        if isinstance(p, bytes):
            out.append(const(p.decode("utf8", "replace"), "str"))
        else:
            fl, wd, pr, n = p
            e = es[n]
            e = e if e.op == "fmtarg" else mk("fmtarg", "?", e, "")
            if fl is None and wd is None and pr is None and e.a[0] == "display":
                out += parts(e.a[1])
            else:
                out.append(mk("fmt", e.a[0], fl or 0x20, -1 if wd is None else wd, -1 if pr is None else pr, e.a[1], e.a[2]))
    return text(out)


def parts(v):
    """the parts of a displayed value"""
    if v.op == "text":
        return list(v.a)
    if v.op == "c" and v.a[1] == "str":
        return [v]
    return [mk("shown", v)]


def text(ps):
    out = []
    for p in ps:
        if out and p.op == "c" and out[-1].op == "c":
            out[-1] = const(out[-1].a[0] + p.a[0], "str")
        elif not (p.op == "c" and p.a[0] == ""):
            out.append(p)
    return mk("text", *out)


@model("std::fmt::Arguments::from_str")
def _(cx):
    v = follow(cx, cx.args[0])
    return text([v]) if v.op == "c" else NotImplemented


@model("std::fmt::format", "std::hint::must_use")
def _(cx):
    return cx.args[0]


@model("std::slice::join", "std::slice::Join::join", "std::slice::concat", "std::slice::Concat::concat")
def _(cx):
    v = follow(cx, cx.args[0])
    s = follow(cx, cx.args[1]) if len(cx.args) > 1 else const("", "str")
    return text([mk("joined", cx.pure(v), s)])


@model("std::io::_print", "std::io::_eprint")
def _(cx):
    cx.I.log.append((cx.last, cx.st.pc, cx.pure(cx.args[0])))
    return UNIT


for k in list(M):
    if k.startswith("core::char::"):
        M["std::char::methods::" + k.split("::")[-1]] = M["core::char::methods::" + k.split("::")[-1]] = M[k]
