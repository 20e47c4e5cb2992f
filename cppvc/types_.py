"""C++ type strings -> structured types."""


class Ty:
    __slots__ = ("name", "args", "ref", "ptr", "quals", "raw", "arr")

    def __init__(self, name, args=(), ref=False, ptr=0, quals=(), raw="", arr=None):
        self.name = name          # last component
        self.quals = tuple(quals)  # namespace components
        self.args = list(args)
        self.ref = ref
        self.ptr = ptr
        self.raw = raw
        self.arr = arr

    def canon(self):
        if self.ptr:
            return "ptr"
        b = self.name
        if "rsffi" in self.quals:
            b = "rsffi::" + b
        elif "rust" in self.quals:
            b = "rust::" + b
        if self.args:
            b += "<" + ",".join(a.canon() for a in self.args) + ">"
        return b

    def noref(self):
        return Ty(self.name, self.args, False, self.ptr, self.quals, self.raw, self.arr)

    def __repr__(self):
        return self.canon() + ("&" if self.ref else "") + "*" * self.ptr


INTS = {
    "unsigned long": (0, 2**64 - 1), "size_t": (0, 2**64 - 1),
    "unsigned long long": (0, 2**64 - 1), "uint64_t": (0, 2**64 - 1),
    "size_type": (0, 2**64 - 1), "std::size_t": (0, 2**64 - 1),
    "unsigned int": (0, 2**32 - 1), "unsigned": (0, 2**32 - 1),
    "uint32_t": (0, 2**32 - 1),
    "unsigned short": (0, 2**16 - 1), "unsigned char": (0, 255),
    "uint16_t": (0, 2**16 - 1), "uint8_t": (0, 255),
    "long": (-2**63, 2**63 - 1), "int64_t": (-2**63, 2**63 - 1),
    "long long": (-2**63, 2**63 - 1), "ptrdiff_t": (-2**63, 2**63 - 1),
    "difference_type": (-2**63, 2**63 - 1),
    "int": (-2**31, 2**31 - 1), "int32_t": (-2**31, 2**31 - 1),
    "short": (-2**15, 2**15 - 1), "int16_t": (-2**15, 2**15 - 1),
    "char": (-128, 127), "signed char": (-128, 127), "int8_t": (-128, 127),
    "__int_type": (-2**31, 2**31 - 1),
}
FLOATS = {"double", "float", "long double"}


def is_int(t):
    return t.ptr == 0 and t.name in INTS


def is_float(t):
    return t.ptr == 0 and t.name in FLOATS


def is_bool(t):
    return t.ptr == 0 and t.name == "bool"


def _split_args(s):
    out = []
    d = 0
    cur = ""
    for ch in s:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


_cache = {}


def parse(s, aliases=None):
    key = (s, id(aliases))
    r = _cache.get(key)
    if r is None:
        r = _parse(s, aliases)
        _cache[key] = r
    return r


def _parse(s, aliases):
    raw = s
    s = s.strip()
    ref = False
    ptr = 0
    if s.startswith("(lambda at"):
        return Ty("lambda", [], False, 0, (), raw)
    # trailing declarator bits
    arr = None
    changed = True
    while changed:
        changed = False
        s = s.strip()
        if s.endswith("&&"):
            s = s[:-2]
            ref = True
            changed = True
        elif s.endswith("&"):
            s = s[:-1]
            ref = True
            changed = True
        elif s.endswith("*const"):
            s = s[:-6]
            ptr += 1
            changed = True
        elif s.endswith("*"):
            s = s[:-1]
            ptr += 1
            changed = True
        elif s.endswith("]") and "[" in s:
            i = s.rindex("[")
            arr = s[i + 1:-1]
            s = s[:i]
            changed = True
        elif s.endswith(" const"):
            s = s[:-6]
            changed = True
    for pre in ("const ", "volatile ", "typename ", "struct ", "class ", "enum "):
        while s.startswith(pre):
            s = s[len(pre):].strip()
    if s.startswith("(lambda at"):
        return Ty("lambda", [], ref, ptr, (), raw, arr)
    if s in INTS or s in FLOATS or s in ("bool", "void", "auto"):
        return Ty(s, [], ref, ptr, (), raw, arr)
    # template arguments
    args = []
    base = s
    if s.endswith(">") and "<" in s:
        # find matching '<'
        d = 0
        for i in range(len(s) - 1, -1, -1):
            if s[i] == ">":
                d += 1
            elif s[i] == "<":
                d -= 1
                if d == 0:
                    break
        base = s[:i]
        inner = s[i + 1:-1]
        short = base.split("::")[-1]
        if short == "function" or short == "Fn":
            args = [Ty(inner.strip(), [], False, 0, (), inner)]
        else:
            args = [parse(a, aliases) for a in _split_args(inner)]
    comps = [c for c in base.split("::") if c]
    if base.endswith(")") and "(" in base:
        return Ty(base, [], ref, ptr, (), raw, arr)
    name = comps[-1] if comps else base
    quals = comps[:-1]
    if name in ("vector", "Vec") and len(args) > 1:
        args = args[:1]
    if aliases and not args:
        a = aliases.get("::".join(comps)) or (aliases.get(name) if not quals or quals == ["trajopt"] else None)
        if a is not None and a != s:
            t = parse(a, aliases)
            return Ty(t.name, t.args, ref or t.ref, ptr + t.ptr, t.quals, raw, arr)
    if name in INTS or name in FLOATS:
        quals = []
    return Ty(name, args, ref, ptr, quals, raw, arr)
