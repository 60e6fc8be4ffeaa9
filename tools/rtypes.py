"""Machine-level spelling of Rust types, comparable with cside.CTypes.canon."""


class RTypes:
    def __init__(self, types, ptr):
        self.t, self.ptr = types, ptr

    def canon(self, i, depth=0):
        t = self.t[i]
        k = t["k"]
        if k in ("int", "uint"):
            w = t["w"]
            if w in ("isize", "usize"):
                return ("i" if k == "int" else "u") + str(8 * self.ptr)
            return w
        if k == "float":
            return t["w"]
        if k == "bool":
            return "bool"
        if k == "tuple" and not t.get("f"):
            return "void"
        if k in ("ptr", "ref"):
            return "*" + (self.canon(t["e"], depth + 1) if depth < 6 else "?")
        if k == "array":
            return "[%s;%s]" % (self.canon(t["e"], depth), t["n"])
        if k == "fnptr":
            return "fn"
        if k == "adt":
            n = t["n"].split("::")[-1]
            if n == "Option":
                a = self.t[t["a"][0]]
                return "fn" if a["k"] == "fnptr" else self.canon(t["a"][0], depth + 1)
            return {"c_void": "void", "_IO_FILE": "FILE"}.get(n, n)
        return t["s"]

    def layout(self, i):
        """size and alignment under repr(C)"""
        t = self.t[i]
        k = t["k"]
        if k in ("int", "uint", "float"):
            w = t["w"]
            n = self.ptr if w.endswith("size") else int(w[1:]) // 8
            return n, n
        if k == "bool":
            return 1, 1
        if k in ("ptr", "ref", "fnptr"):
            return self.ptr, self.ptr
        if k == "array":
            s, a = self.layout(t["e"])
            return s * t["n"], a
        if k == "tuple" and not t.get("f"):
            return 0, 1
        if k == "adt":
            if t["n"].split("::")[-1] == "Option":
                return self.ptr, self.ptr
            return self.struct(t)[:2]
        raise ValueError(t["s"])

    def struct(self, t):
        fs = t["v"][0]["f"]
        union = t["ak"] == "Union"
        off, al, offs = 0, 1, []
        for n, ft in fs:
            s, a = self.layout(ft)
            al = max(al, a)
            if union:
                offs.append(0)
                off = max(off, s)
            else:
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
        return (off + al - 1) // al * al, al, offs
