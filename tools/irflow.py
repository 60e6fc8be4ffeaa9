"""C23, C part: a dataflow analysis over the LLVM IR of the shim for the setjmp/NOerrexit protocol."""
import os, re
import cside


def call_graph():
    g = {}
    where = {}
    for f in cside.c_files():
        for n, (ps, bl, en) in cside.ir_functions(cside.ir("unix64", f, "-O0")).items():
            g[n] = set(cside.ir_calls(bl))
            where[n] = f
    return g, where


def transitive(g, targets):
    res = set(targets)
    ch = True
    while ch:
        ch = False
        for n, cs in g.items():
            if n not in res and cs & res:
                res.add(n)
                ch = True
    return res


class Fn:
    def __init__(self, name, params, blocks, entry):
        self.name, self.params, self.blocks, self.entry = name, params, blocks, entry
        self.defs = {}
        for b, ins in blocks.items():
            for i in ins:
                m = re.match(r"^(%[\w.]+) = (.*)$", i)
                if m:
                    self.defs[m.group(1)] = (b, m.group(2))

    def field(self, v):
        """(base value, struct field number) a pointer value stands for, or None"""
        d = self.defs.get(v)
        if not d:
            return None
        m = re.match(r"^getelementptr (?:inbounds )?(?:nuw )?%struct\.qhT, ptr (%[\w.]+), i\d+ 0, i32 (\d+)(.*)$", d[1])
        if m:
            return m.group(1), int(m.group(2))
        return None


def analyse(fn, may_err, noerr, errexit, local_fns):
    """Follows `fn` separately for setjmp's direct return (0) and for its second one (nonzero).
    Yields (kind, detail) for every violated rule; returns facts through the list `facts`."""
    out = []
    facts = {"setjmp": 0, "calls": 0, "rets": 0, "undecided": 0}
    has_setjmp = any("_setjmp(" in i or "@sigsetjmp(" in i or "@__sigsetjmp(" in i or "@setjmp(" in i
                     for b in fn.blocks.values() for i in b)

    def val(v, env):
        if re.match(r"^-?\d+$", v):
            return int(v)
        if v in ("true", "false"):
            return int(v == "true")
        return env.get(v)

    for scen in (0, 1):
        # state: block, previous block, env of known ints / 'nz', armed, noerr flag
        work = [(fn.entry, None, {}, False, 1)]
        seen = set()
        while work:
            b, prev, env, armed, ne = work.pop()
            key = (b, prev, tuple(sorted((k, str(v)) for k, v in env.items())), armed, ne)
            if key in seen or len(seen) > 5000:
                continue
            seen.add(key)
            env = dict(env)
            for i in fn.blocks[b]:
                dst = None
                m = re.match(r"^(%[\w.]+) = (.*)$", i)
                body = i
                if m:
                    dst, body = m.groups()
                if body.startswith("phi"):
                    for x, p in re.findall(r"\[ ([^,]+), %([\w.]+) \]", body):
                        if p == prev:
                            env[dst] = val(x, env)
                    continue
                m = re.search(r"\bcall\b[^@]*@([\w.]+)\((.*?)\)(?: #\d+)?$", body)
                if m:
                    callee, args = m.groups()
                    if callee in ("_setjmp", "setjmp", "__sigsetjmp", "sigsetjmp"):
                        facts["setjmp"] += 1
                        p = re.findall(r"(%[\w.]+)", args)
                        f = fn.field(p[0]) if p else None
                        if f is None or f[1] != errexit:
                            out.append(("jump buffer", "setjmp does not set qh->errexit"))
                        armed = True
                        env[dst] = 0 if scen == 0 else "nz"
                        if scen == 1:
                            ne = 1  # qh_errexit disables further jumps before it jumps
                    elif callee in may_err:
                        facts["calls"] += 1
                        if scen == 1 and armed:
                            if ne != 1:
                                out.append(("call after error", "%s is called after an error came back" % callee))
                        elif ne != 1 and not armed:
                            out.append(("no jump target", "%s can raise an error and qh->errexit was not set in a live frame" % callee))
                        elif ne != 0 and has_setjmp and callee not in local_fns:
                            out.append(("error exits the process", "%s is called while NOerrexit is set" % callee))
                        if not has_setjmp and ne == 1:
                            pass
                    continue
                m = re.match(r"^store i32 (\S+), ptr (%[\w.]+)", body)
                if m:
                    f = fn.field(m.group(2))
                    if f and f[1] == noerr:
                        v = val(m.group(1), env)
                        ne = None if v is None else (1 if v else 0)
                    continue
                m = re.match(r"^icmp (eq|ne|sgt|slt|ugt) i32 (\S+), (\S+)$", body)
                if m:
                    x, y = val(m.group(2), env), val(m.group(3), env)
                    r = None
                    if x == "nz" and y == 0 and m.group(1) in ("eq", "ne"):
                        r = int(m.group(1) == "ne")
                    elif isinstance(x, int) and isinstance(y, int):
                        r = int({"eq": x == y, "ne": x != y, "sgt": x > y, "slt": x < y, "ugt": x > y}[m.group(1)])
                    env[dst] = r
                    continue
                m = re.match(r"^(?:zext|trunc|sext|freeze) \S+ (\S+?)(?: to .*)?$", body)
                if m:
                    env[dst] = val(m.group(1), env)
                    continue
                m = re.match(r"^select i1 (\S+), \S+ (\S+), \S+ (\S+)$", body)
                if m:
                    cnd = val(m.group(1), env)
                    env[dst] = None if cnd is None else val(m.group(2) if cnd else m.group(3), env)
                    continue
                m = re.match(r"^br i1 (\S+), label %([\w.]+), label %([\w.]+)", body)
                if m:
                    cnd = val(m.group(1), env)
                    for t, l in ((1, m.group(2)), (0, m.group(3))):
                        if cnd is None or cnd == t:
                            work.append((l, b, env, armed, ne))
                    break
                m = re.match(r"^br label %([\w.]+)", body)
                if m:
                    work.append((m.group(1), b, env, armed, ne))
                    break
                if body.startswith("switch"):
                    for l in re.findall(r"label %([\w.]+)", body):
                        work.append((l, b, env, armed, ne))
                    break
                m = re.match(r"^ret (.*)$", body)
                if m:
                    facts["rets"] += 1
                    if ne == 0:
                        out.append(("armed after return", "returns with NOerrexit cleared: a later error jumps into a dead frame"))
                    elif ne is None:
                        facts["undecided"] += 1
                    if armed:
                        if m.group(1) == "void":
                            out.append(("error not reported", "the failure is not returned"))
                        else:
                            v = val(m.group(1).split()[-1], env)
                            if v is None:
                                facts["undecided"] += 1
                            elif scen == 1 and v == 0:
                                out.append(("error not reported", "returns 0 after an error"))
                            elif scen == 0 and v != 0:
                                out.append(("success not reported", "returns %s without an error" % v))
                    break
        if not has_setjmp:
            break
    return sorted(set(out)), facts


def field_numbers(names):
    """LLVM field numbers of qhT's fields"""
    with open(os.path.join(cside.SYS, "src/ext.c")) as f:
        src = f.read()
    for n in names:
        src += "\nvoid *vpfld_%s(qhT *q) { return (void *)&q->%s; }\n" % (n, n)
    txt = cside.clang(cside.flags("unix64") + ["-O1", "-S", "-emit-llvm", "-o", "-", "-x", "c", "-Isrc", "-"], input=src)
    res = {}
    for n in names:
        ps, bl, en = cside.ir_functions(txt)["vpfld_" + n]
        fn = Fn(n, ps, bl, en)
        for b in bl.values():
            for i in b:
                m = re.match(r"^ret ptr (%[\w.]+)", i)
                if m:
                    res[n] = fn.field(m.group(1))[1]
    return res
