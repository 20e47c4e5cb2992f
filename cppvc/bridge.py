"""The C++ side of the #[cxx::bridge] module of src/lib.rs, produced from the
text of the module on every run: the shared structs (same fields, same order)
and, for every operation declared there, the check cxx itself makes that the
C++ member has exactly the declared parameter types."""
import os
import re


class BridgeError(Exception):
    pass


def strip_comments(s):
    s = re.sub(r"/\*.*?\*/", " ", s, flags=re.S)
    return re.sub(r"//[^\n]*", " ", s)


def matching(s, i):
    """index after the bracket that closes s[i]"""
    op = s[i]
    cl = {"{": "}", "(": ")", "<": ">", "[": "]"}[op]
    d = 0
    while i < len(s):
        if s[i] == op:
            d += 1
        elif s[i] == cl and not (cl == ">" and s[i - 1] == "-"):
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    raise BridgeError("unbalanced %s" % op)


def split_top(s, sep=","):
    out, d, cur = [], 0, ""
    for i, c in enumerate(s):
        if c in "<([{":
            d += 1
        elif c in ")]}" or (c == ">" and s[i - 1] != "-"):
            d -= 1
        if c == sep and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return [x for x in out if x]


class Fn:
    def __init__(self, name, recv, params, ret, cxx=None):
        self.name, self.recv, self.params, self.ret = name, recv, params, ret
        self.cxx = cxx or name      # the C++ function it is bound to


class Bridge:
    """namespace, structs {name: [(field, type)]} and operations of the module"""

    def __init__(self, text):
        s = strip_comments(text)
        m = re.search(r"#\[cxx::bridge(?:\s*\(([^)]*)\))?\]", s)
        if not m:
            raise BridgeError("no cxx::bridge module")
        ns = re.search(r'namespace\s*=\s*"?([\w:]+)"?', m.group(1) or "")
        self.ns = ns.group(1) if ns else ""
        b = s.index("{", m.end())
        head = s[m.end():b]
        mm = re.search(r"mod\s+(\w+)", head)
        if not mm:
            raise BridgeError("no module after the bridge attribute")
        self.mod = mm.group(1)
        self.end = matching(s, b)
        self.start = m.start()
        self.rest = s[:m.start()] + s[self.end:]
        body = s[b + 1:self.end - 1]
        self.structs = {}
        self.types = []
        self.fns = []
        self.includes = []
        # keep only the attributes that rename an operation
        body = re.sub(r"#\s*\[([^\]]*)\]", self._attr, body)
        i = 0
        while True:
            m = re.compile(r"\s*(?:pub(?:\s*\([^)]*\))?\s+)?(struct\s+(\w+)|(?:unsafe\s+)?extern\s+\"C\+\+\"|use\s[^;]*;|\Z)").match(body, i)
            if not m:
                raise BridgeError("bridge item: " + body[i:i + 60].strip())
            if m.end() == len(body) and not m.group(1).strip():
                break
            if m.group(1).startswith("use"):
                i = m.end()
                continue
            o = body.index("{", m.end())
            e = matching(body, o)
            inner = body[o + 1:e - 1]
            if m.group(2):
                fs = []
                for f in split_top(inner):
                    n, t = f.split(":", 1)
                    fs.append((n.replace("pub", " ").split()[-1].strip(), t.strip()))
                self.structs[m.group(2)] = fs
            else:
                self._extern(inner)
            i = e

    @staticmethod
    def _attr(m):
        a = re.match(r"\s*(cxx_name|rust_name)\s*=\s*\"?(\w+)\"?\s*$", m.group(1))
        return " @%s %s@ " % a.groups() if a else " "

    def _extern(self, s):
        for it in split_top(s, ";"):
            it = re.sub(r"\s+", " ", it).strip()
            names = dict(re.findall(r"@(\w+) (\w+)@", it))
            it = re.sub(r"@\w+ \w+@", " ", it).strip()
            m = re.match(r'include!\s*\(\s*"([^"]+)"\s*\)', it)
            if m:
                self.includes.append(m.group(1))
                continue
            m = re.match(r"type (\w+)$", it)
            if m:
                self.types.append(m.group(1))
                continue
            m = re.match(r"(?:unsafe )?(?:pub )?fn (\w+) ?\(", it)
            if not m:
                raise BridgeError("extern item: " + it)
            e = matching(it, m.end() - 1)
            recv, ps = None, []
            for p in split_top(it[m.end():e - 1]):
                if p.replace(" ", "") == "&self":
                    recv = "&" + (self.types[0] if len(self.types) == 1 else "?")
                    continue
                n, t = [x.strip() for x in p.split(":", 1)]
                if n == "self":
                    recv = t
                else:
                    ps.append((n, t))
            r = it[e:].strip()
            nm, cxx = m.group(1), names.get("cxx_name", m.group(1))
            nm = names.get("rust_name", nm)
            self.fns.append(Fn(nm, recv, ps, r[2:].strip() if r.startswith("->") else None, cxx))

    # ------------------------------------------------------------- C++ text
    PRIM = {"f64": "double", "f32": "float", "bool": "bool", "usize": "::std::size_t",
            "isize": "::std::ptrdiff_t", "i8": "::std::int8_t", "i16": "::std::int16_t",
            "i32": "::std::int32_t", "i64": "::std::int64_t", "u8": "::std::uint8_t",
            "u16": "::std::uint16_t", "u32": "::std::uint32_t", "u64": "::std::uint64_t",
            "String": "::rust::String"}

    def cpp(self, t):
        t = re.sub(r"\s+", " ", t.strip())
        if t in self.PRIM:
            return self.PRIM[t]
        m = re.match(r"Pin ?< ?&(?:'\w+ )?mut (.*)>$", t)
        if m:
            return self.cpp(m.group(1)) + "&"
        m = re.match(r"&(?:'\w+ )?mut (.*)$", t)
        if m:
            return self.cpp(m.group(1)) + "&"
        if t.startswith("&"):
            return self.cpp(re.sub(r"^&('\w+ )?", "", t)) + " const&"
        m = re.match(r"(Vec|UniquePtr|SharedPtr|Result) ?<(.*)>$", t)
        if m:
            x = self.cpp(m.group(2))
            return {"Vec": "::rust::Vec<%s>", "UniquePtr": "::std::unique_ptr<%s>",
                    "SharedPtr": "::std::shared_ptr<%s>", "Result": "%s"}[m.group(1)] % x
        m = re.match(r"fn ?\((.*)\)(?: ?-> ?(.*))?$", t)
        if m:
            ps = [self.cpp(p.split(":", 1)[-1] if re.match(r"\w+ ?:[^:]", p) else p)
                  for p in split_top(m.group(1))]
            return "::rust::Fn<%s(%s)>" % (self.cpp(m.group(2)) if m.group(2) else "void", ", ".join(ps))
        if t == "()":
            return "void"
        if t in self.structs or t in self.types:
            return ("::" + self.ns if self.ns else "") + "::" + t
        raise BridgeError("type " + t)

    def header(self):
        o = ["// generated from the #[cxx::bridge] module of src/lib.rs", "#pragma once",
             "#include <cstddef>", "#include <cstdint>", "#include <memory>", "#include <rust/cxx.h>"]
        for i in self.includes:
            o.append('#include "%s"' % i)
        o.append("namespace %s {" % self.ns)
        for s in self.structs:
            o.append("struct %s;" % s)
        done = set()

        def emit(s):
            if s in done:
                return
            done.add(s)
            for _, t in self.structs[s]:
                for d in self.structs:
                    if d != s and re.search(r"\b%s\b" % d, t):
                        emit(d)
            o.append("struct %s final {" % s)
            for f, t in self.structs[s]:
                o.append("  %s %s;" % (self.cpp(t), f))
            o.append("};")
        for s in self.structs:
            emit(s)
        o.append("}")
        return "\n".join(o) + "\n"

    def assertions(self):
        """the conversions cxx's generated code makes, one per operation"""
        o = ["namespace cxxbridge_check {"]
        for k, f in enumerate(self.fns):
            ps = ", ".join(self.cpp(t) for _, t in f.params)
            r = self.cpp(f.ret) if f.ret else "void"
            if f.recv:
                const = "" if "mut" in f.recv else " const"
                ty = re.sub(r"^(Pin ?< ?)?&('\w+ )?(mut )?", "", re.sub(r"\s+", " ", f.recv)).rstrip("> ")
                cls = "::%s::%s" % (self.ns, ty)
                o.append("inline %s (%s::*op%d)(%s)%s = &%s::%s;" % (r, cls, k, ps, const, cls, f.cxx))
            else:
                o.append("inline %s (*op%d)(%s) = &::%s::%s;" % (r, k, ps, self.ns, f.cxx))
        o.append("}")
        return "\n".join(o) + "\n"


def load(repo):
    with open(os.path.join(repo, "src/lib.rs")) as f:
        return Bridge(f.read())


def write(repo, d, package="trajoptlib"):
    """lay out the include directory cxx would produce"""
    b = load(repo)
    os.makedirs(os.path.join(d, package, "src"), exist_ok=True)
    with open(os.path.join(d, package, "src", "lib.rs.h"), "w") as f:
        f.write(b.header())
    with open(os.path.join(d, "bridge_check.hpp"), "w") as f:
        f.write(b.assertions())
    return b


if __name__ == "__main__":
    import sys
    write(sys.argv[1], sys.argv[2])
