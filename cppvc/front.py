"""Front end: dump clang's AST of the real sources and index it."""
import json
import os
import re
import subprocess
import sys

import types_ as T

CLANG = os.environ.get("CPPVC_CLANG", "clang++-18")


class FrontError(Exception):
    pass


def dump(tu, includes, filt="trajopt", extra=(), timeout=300):
    cmd = [CLANG, "-std=c++20", "-fsyntax-only", "-w"]
    for i in includes:
        cmd += ["-I", i]
    cmd += list(extra)
    cmd += ["-Xclang", "-ast-dump=json", "-Xclang",
            "-ast-dump-filter=" + filt, tu]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       timeout=timeout)
    if p.returncode != 0:
        raise FrontError("clang failed: " + p.stderr.decode(errors="replace")[:4000])
    s = p.stdout.decode("utf-8", errors="replace")
    dec = json.JSONDecoder()
    docs = []
    i = 0
    n = len(s)
    while True:
        while i < n and s[i] in " \t\r\n":
            i += 1
        if i >= n:
            break
        d, i = dec.raw_decode(s, i)
        docs.append(d)
    return docs


FUNC_KINDS = {"FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl",
              "CXXDestructorDecl", "CXXConversionDecl"}
RECORD_KINDS = {"CXXRecordDecl", "ClassTemplateSpecializationDecl",
                "ClassTemplatePartialSpecializationDecl"}


class Record:
    __slots__ = ("key", "fields", "finit", "ctors", "node", "bases", "ftypes",
                 "fids", "methods")

    def __init__(self, key, node):
        self.key = key
        self.node = node
        self.fields = []     # names in order
        self.ftypes = {}     # name -> Ty
        self.finit = {}      # name -> init expr node
        self.fids = {}       # decl id -> name
        self.ctors = []      # constructor nodes
        self.methods = []
        self.bases = []


class Program:
    """All declarations of one translation unit that live in the project."""

    def __init__(self, docs):
        self.by_id = {}      # id -> node
        self.parent = {}     # id -> parent node
        self.ns = {}         # id -> qualified prefix tuple
        self.defn = {}       # any decl id -> node with a body
        self.funcs = []      # function nodes with bodies
        self.aliases = {}
        self.records = {}
        self.by_qual = {}
        self.enums = {}      # EnumConstantDecl id -> value
        self._recnodes = []
        self.docs = docs
        self.files = None
        self.hiding = set()
        for d in docs:
            self._walk(d, None, (), False)
        for i, n in self.by_id.items():
            if n["kind"] in FUNC_KINDS and body_of(n) is not None:
                self.defn[i] = n
                p = n.get("previousDecl")
                while p:
                    self.defn.setdefault(p, n)
                    p = self.by_id.get(p, {}).get("previousDecl")
        # (re-declarations that point at the definition the other way round)
        for i, n in self.by_id.items():
            p = n.get("previousDecl")
            if p and n["kind"] in FUNC_KINDS and i not in self.defn and p in self.defn:
                self.defn[i] = self.defn[p]
        for n, ns in self._recnodes:
            self._record(n, ns)
        seen = set()
        for f in self.funcs:
            if f["id"] in seen:
                continue
            seen.add(f["id"])
            q = "::".join(self.qual_of(f))
            self.by_qual.setdefault(q, []).append(f)

    def text_of(self, node):
        """source text of an expression that lies outside macros"""
        if self.files is None:
            self.files = {}
            cur = [None]

            def bare(d):
                if "file" in d:
                    cur[0] = d["file"]
                for k in ("spellingLoc", "expansionLoc"):
                    if k in d:
                        bare(d[k])

            def walk(n):
                if isinstance(n, list):
                    for x in n:
                        walk(x)
                    return
                if not isinstance(n, dict):
                    return
                if "loc" in n:
                    bare(n["loc"])
                if "range" in n:
                    bare(n["range"].get("begin", {}))
                    if n.get("kind") == "DeclRefExpr":
                        self.files[n["id"]] = cur[0]
                    bare(n["range"].get("end", {}))
                for k, x in n.items():
                    if k == "inner":
                        walk(x)
            walk(self.docs)
        f = self.files.get(node.get("id"))
        b, e = node["range"]["begin"], node["range"]["end"]
        if f is None or "offset" not in b or "offset" not in e:
            return None
        t = open(f, "rb").read()
        return t[b["offset"]:e["offset"] + e.get("tokLen", 0)].decode("utf-8", "replace")

    def qual_of(self, f):
        """namespace/class path of a function (out-of-line ones too)"""
        ns = self.ns[f["id"]]
        if f.get("parentDeclContextId"):
            par = self.by_id.get(f["parentDeclContextId"])
            if par is not None:
                ns = self.ns[par["id"]] + (par.get("name", ""),)
        elif f.get("previousDecl") in self.ns:
            ns = self.ns[f["previousDecl"]]
        return tuple(x for x in ns if x) + (f.get("name", ""),)

    def _walk(self, n, parent, ns, in_tmpl):
        if not isinstance(n, dict) or not n:
            return
        k = n.get("kind", "")
        if k == "FullComment":
            return
        i = n.get("id")
        isd = k.endswith("Decl")
        if "rsffi" in ns:
            # names that namespace trajopt::rsffi declares hide those of trajopt
            if k in RECORD_KINDS and ns[-1] == "rsffi" and n.get("name"):
                self.hiding.add(n["name"])
            t = n.get("type")
            if t and "desugaredQualType" not in t and self.hiding:
                q = t.get("qualType", "")
                t["desugaredQualType"] = re.sub(
                    r"(?<![:\w])(%s)\b" % "|".join(sorted(self.hiding)), r"trajopt::rsffi::\1", q)
        if isd and i is not None:
            old = self.by_id.get(i)
            if old is None or ("inner" in n and "inner" not in old):
                self.by_id[i] = n
                self.parent[i] = parent
                self.ns[i] = ns
            if k in FUNC_KINDS and body_of(n) is not None and not in_tmpl:
                self.funcs.append(n)
            if k in ("TypeAliasDecl", "TypedefDecl") and not in_tmpl:
                q = "::".join([x for x in ns if x] + [n.get("name", "")])
                t = n.get("type", {})
                self.aliases.setdefault(q, t.get("desugaredQualType") or t.get("qualType"))
                if tuple(x for x in ns if x) == ("trajopt",):
                    # names used without qualification inside namespace trajopt
                    self.aliases.setdefault(n.get("name", ""), t.get("desugaredQualType") or t.get("qualType"))
            if k in RECORD_KINDS and n.get("completeDefinition") and not in_tmpl:
                self._recnodes.append((n, ns))
        inner = n.get("inner", ())
        if k == "EnumDecl":
            v = -1
            for x in inner:
                if x.get("kind") == "EnumConstantDecl":
                    v += 1
                    val = _const_value(x)
                    if val is not None:
                        v = val
                    self.enums[x["id"]] = v
        if k == "NamespaceDecl" or k in RECORD_KINDS:
            nns = ns + (n.get("name", ""),)
            par = n
        else:
            nns = ns
            par = n if isd else parent
        if k in ("ClassTemplateDecl", "FunctionTemplateDecl"):
            first = True
            for x in inner:
                pat = x.get("kind") in RECORD_KINDS | FUNC_KINDS and first and \
                    x.get("kind") != "ClassTemplateSpecializationDecl"
                if pat:
                    first = False
                self._walk(x, par, nns, in_tmpl or pat)
            return
        if k == "ClassTemplatePartialSpecializationDecl":
            in_tmpl = True
        for x in inner:
            self._walk(x, par, nns, in_tmpl)

    def _record(self, n, ns):
        name = n.get("name")
        if not name:
            return
        args = []
        if n["kind"] == "ClassTemplateSpecializationDecl":
            for x in n.get("inner", ()):
                if x.get("kind") == "TemplateArgument" and "type" in x:
                    args.append(self.ty(x))
        t = T.Ty(name, args, quals=[x for x in ns if x])
        key = t.canon()
        if key in self.records and self.records[key].fields:
            return
        r = Record(key, n)
        for x in n.get("inner", ()):
            k = x.get("kind")
            if k == "FieldDecl":
                fn = x.get("name", "")
                r.fields.append(fn)
                r.ftypes[fn] = x
                r.fids[x["id"]] = fn
                for y in x.get("inner", ()):
                    if y.get("kind", "").endswith(("Expr", "Literal", "Operator")):
                        r.finit[fn] = y
            elif k == "CXXConstructorDecl":
                r.ctors.append(x)
            elif k == "FunctionTemplateDecl":
                for y in x.get("inner", ()):
                    if y.get("kind") == "CXXConstructorDecl":
                        r.ctors.append(y)
            elif k == "CXXMethodDecl":
                r.methods.append(x)
        for b in n.get("bases", ()):
            r.bases.append(b)
        self.records[key] = r

    def ty(self, node):
        t = node.get("type", {}) if isinstance(node, dict) else {}
        return self.tystr(t.get("desugaredQualType") or t.get("qualType", ""))

    def tystr(self, s):
        return T.parse(s, self.aliases)

    def find(self, qual, pred=None):
        """function definitions by qualified name (suffix match)"""
        out = []
        for q, fs in self.by_qual.items():
            if q == qual or q.endswith("::" + qual):
                for f in fs:
                    if pred is None or pred(f):
                        out.append(f)
        return out


def _const_value(x):
    if "value" in x and x.get("kind") in ("ConstantExpr", "IntegerLiteral"):
        try:
            return int(x["value"])
        except ValueError:
            return None
    for y in x.get("inner", ()):
        v = _const_value(y)
        if v is not None:
            return v
    return None


def body_of(fn):
    for x in fn.get("inner", ()):
        if x.get("kind") in ("CompoundStmt", "CXXTryStmt"):
            return x
    return None


def params_of(fn):
    return [x for x in fn.get("inner", ()) if x.get("kind") == "ParmVarDecl"]


def show(n, ind=0, out=sys.stdout):
    """Compact rendering, for development."""
    if not n:
        out.write("  " * ind + "<null>\n")
        return
    t = n.get("type", {})
    bits = [n.get("kind", "?")]
    for key in ("name", "opcode", "value", "castKind", "isArrow", "isPostfix",
                "init", "hasInit", "hasVar", "hasElse", "constexpr", "valueCategory", "elidable", "list"):
        if key in n:
            bits.append("%s=%s" % (key, n[key]))
    if "desugaredQualType" in t:
        bits.append("T<%s>" % t["desugaredQualType"])
    elif "qualType" in t:
        bits.append("t<%s>" % t["qualType"])
    if "ctorType" in n:
        bits.append("ctor<%s>" % n["ctorType"].get("qualType"))
    r = n.get("referencedDecl")
    if r:
        bits.append("->%s %s %s" % (r.get("kind"), r.get("name"), r.get("id")))
    if "referencedMemberDecl" in n:
        bits.append("->m %s" % n["referencedMemberDecl"])
    if "anyInit" in n:
        bits.append("anyInit=%s" % n["anyInit"].get("name"))
    if "baseInit" in n:
        bits.append("baseInit")
    if n.get("kind", "").endswith("Decl"):
        bits.append(n.get("id", ""))
    out.write("  " * ind + " ".join(str(b) for b in bits) + "\n")
    for x in n.get("inner", ()):
        show(x, ind + 1, out)


if __name__ == "__main__":
    docs = dump(sys.argv[1], ["/repo/include", "/repo/src", "/verif/shim"])
    prog = Program(docs)
    for f in prog.funcs:
        q = "::".join(prog.qual_of(f))
        if len(sys.argv) == 2:
            print(f["kind"], q, f["type"]["qualType"])
        elif any(a == f.get("name") for a in sys.argv[2:]):
            print("=====", q, f["type"]["qualType"])
            show(f)
