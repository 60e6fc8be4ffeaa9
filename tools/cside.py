"""Facts about the C side, from clang: signatures, record layouts, LLVM IR. Nothing is run."""
import json, os, re, subprocess, tempfile
from vbuild import REPO, VERIF, BuildError

SYS = os.path.join(REPO, "qhull-sys")
TARGETS = {
    "unix64": ["--target=x86_64-unknown-linux-gnu"],
    "wasm32": ["--target=wasm32-unknown-unknown", "-DWASM", "-isystem", os.path.join(VERIF, "cstubs")],
}


def clang(args, **kw):
    r = subprocess.run(["clang", "-w"] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=SYS, **kw)
    if r.returncode:
        raise BuildError("clang: " + r.stderr[-2000:])
    return r.stdout


def flags(target):
    return TARGETS[target] + ["-ansi", "-Iqhull/src"]


def c_files():
    with open(os.path.join(SYS, "build.rs")) as f:
        fs = re.findall(r'"([^"]+\.c)"', f.read())
    return [f for f in fs if os.path.exists(os.path.join(SYS, f))]


class CTypes:
    """Typedef-free spelling of C types."""

    def __init__(self):
        self.td = {}
        self.enums = set()

    def canon(self, t, depth=0):
        t = re.sub(r"\b(const|volatile|restrict|struct|union|__restrict|extern)\b", " ", t)
        t = t.strip()
        if "(" in t and "(unnamed" not in t and "(anonymous" not in t:
            return "fn" if "(*)" in t or re.search(r"\)\s*\(", t) or t.endswith(")") else t
        m = re.match(r"^(.*?)\s*\[(\d*)\]\s*((?:\[\d*\])*)$", t)
        if m:
            inner = (m.group(1) + m.group(3)).strip()
            return "[%s;%s]" % (self.canon(inner), m.group(2))
        m = re.match(r"^(.*?)\s*\*$", t)
        if m:
            p = self.canon(m.group(1))
            return "fn" if p == "fnty" else "*" + p
        t = " ".join(t.split())
        if t.startswith("enum "):
            return "u32"
        base = {"char": "i8", "signed char": "i8", "unsigned char": "u8", "short": "i16", "unsigned short": "u16",
                "int": "i32", "unsigned int": "u32", "unsigned": "u32", "long": "long", "unsigned long": "ulong",
                "long long": "i64", "unsigned long long": "u64", "float": "f32", "double": "f64", "void": "void",
                "_Bool": "bool", "_IO_FILE": "FILE"}
        if t in base:
            return base[t]
        if t in self.td and depth < 20:
            u = self.td[t]
            if re.search(r"\)\s*$", u) and "(*" not in u:
                return "fnty"
            v = re.sub(r"\b(struct|union)\b", " ", u).strip()
            if v != t:
                return self.canon(u, depth + 1)
        return t


def ast(target, src, extra=()):
    return json.loads(clang(flags(target) + list(extra) + ["-fsyntax-only", "-Xclang", "-ast-dump=json", src]))


def signatures(target, src="src/ext.c", extra=()):
    tree = ast(target, src, extra)
    ct = CTypes()
    for n in tree["inner"]:
        if n["kind"] == "TypedefDecl":
            ct.td[n["name"]] = n["type"]["qualType"]
    fns = {}
    for n in tree["inner"]:
        if n["kind"] != "FunctionDecl" or n["name"].startswith("__"):
            continue
        q = n["type"]["qualType"]
        ret = q[:q.index("(")] if "(*" not in q.split("(")[0] else q
        ps = [ct.canon(p["type"]["qualType"]) for p in n.get("inner", []) if p["kind"] == "ParmVarDecl"]
        ps = ["*" + p[1:p.rindex(";")] if p.startswith("[") else p for p in ps]
        fns[n["name"]] = (ct.canon(ret), ps, bool(n.get("variadic")))
    return fns, ct


def records(target, ct, src="src/ext.c"):
    """name -> {size, align, fields: [(name, byte offset, bit offset or None, bits, type)], members of anonymous unions}"""
    txt = clang(flags(target) + ["-fsyntax-only", "-Xclang", "-fdump-record-layouts-complete", src])
    recs = {}
    for blk in txt.split("*** Dumping AST Record Layout")[1:]:
        lines = [l for l in blk.split("\n") if l.strip()]
        m = re.match(r"^\s*0 \| (?:struct|union) (.*)$", lines[0])
        if not m:
            continue
        name = m.group(1).strip()
        fields = []
        size = None
        stack = []
        for l in lines[1:]:
            m = re.match(r"^\s*\| \[sizeof=(\d+), align=(\d+)", l)
            if m:
                size = (int(m.group(1)), int(m.group(2)))
                break
            m = re.match(r"^\s*(\d+)(?::(\d+)-(\d+))? \| (\s+)(.*?)(\S+)$", l)
            if not m:
                continue
            off, lo, hi, ind, ty, fn = m.groups()
            ty = ty.strip()
            mm = re.match(r"^(.*?)((?:\[\d+\])+)$", fn)
            fields.append(dict(name=fn, off=int(off), lo=None if lo is None else int(lo),
                               bits=None if lo is None else int(hi) - int(lo) + 1, ty=ty, depth=len(ind) // 2))
        if size:
            recs[name] = dict(size=size[0], align=size[1], fields=fields)
    return recs


def ir(target, src, opt="-O1"):
    return clang(flags(target) + [opt, "-S", "-emit-llvm", "-o", "-", src])


def ir_functions(txt):
    """name -> (list of parameter names, {block label: [instructions]}, entry label)"""
    fns = {}
    cur = None
    for l in txt.split("\n"):
        m = re.match(r"^define .*?@([\w.]+)\((.*)\).*\{$", l)
        if m:
            params = re.findall(r"%([\w.]+)(?=,|$)", m.group(2))
            cur = (params, {}, None)
            fns[m.group(1)] = [params, {}, str(len(params))]
            blk = str(len(params))
            fns[m.group(1)][1][blk] = []
            cur = fns[m.group(1)]
            continue
        if cur is None:
            continue
        if l == "}":
            cur = None
            continue
        m = re.match(r"^([\w.]+):", l)
        if m:
            blk = m.group(1)
            cur[1][blk] = []
            continue
        if l.strip():
            cur[1][blk].append(l.strip())
    return fns


def ir_calls(blocks):
    for b in blocks.values():
        for i in b:
            m = re.search(r"\bcall\b[^@(]*(?:\([^)]*\)\s*)?@([\w.]+)\(", i)
            if m:
                yield m.group(1)
