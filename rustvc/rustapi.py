"""The public Rust path builder (src/lib.rs) under Verus contracts.

The text of lib.rs outside the #[cxx::bridge] module is taken as it stands on
every run.  What the extraction changes, and nothing else:
  - comments are dropped;
  - the bridge module is replaced by a module of the same name, generated from
    it, whose operations have assumed contracts (each records one call with
    its arguments in a log) or, for the runtime part, real bodies that record;
  - a `fn(...)` pointer type is replaced by an opaque value type (Verus has no
    function pointers; the wrappers only pass the value on);
  - `ensures`/`requires` clauses are inserted between signature and body, and
    a return value gets a name;
  - a closure handed to map_err gets an ensures clause;
  - `String::from(e)` is read as a function with the contract "the same text"
    (its argument has to be a &str), and `format!("{}", v)` / `format!("{v}")`
    as `v.to_string()`, which is what std defines it to be;
    `e.what().into()` likewise as `e.what().to_string()`."""
import json
import os
import re
import subprocess
import tempfile
import time

from bridge import Bridge, BridgeError, matching, split_top


class Unfit(Exception):
    """the text has a form the extraction does not know"""


FN = re.compile(r"(?P<vis>pub(?:\s*\([^)]*\))?\s+)?(?P<q>(?:const\s+|unsafe\s+|async\s+)*)fn\s+(?P<name>\w+)\s*(?=[<(])")


class Func:
    __slots__ = ("name", "public", "impl", "trait", "recv", "params", "ret", "body0", "body1",
                 "sig0", "ret0", "generic", "nested")


def split_params(s):
    out = []
    for p in split_top(s):
        if re.match(r"(&\s*('\w+\s+)?)?(mut\s+)?self$", p):
            out.append(("self", re.sub(r"\s+", " ", p.replace("self", "Self"))))
            continue
        n, t = p.split(":", 1)
        out.append((re.sub(r"^mut\s+", "", n.strip()), re.sub(r"\s+", " ", t.strip())))
    return out


def functions(s):
    """every fn with a body in the text, with its enclosing impl"""
    impls = []
    for m in re.finditer(r"\bimpl\b\s*(?:<[^>]*>\s*)?(?:(?P<tr>[\w:<>]+)\s+for\s+)?(?P<ty>\w+)\s*\{", s):
        e = matching(s, m.end() - 1)
        impls.append((m.end(), e, m.group("ty"), m.group("tr")))
    out = []
    for m in FN.finditer(s):
        f = Func()
        f.name, f.public = m.group("name"), bool(m.group("vis")) and "(" not in (m.group("vis") or "")
        f.impl = f.trait = None
        for a, b, ty, tr in impls:
            if a <= m.start() < b:
                f.impl, f.trait = ty, tr
        i = m.end()
        f.generic = s[i] == "<"
        if f.generic:
            i = matching(s, i)
            i += len(s[i:]) - len(s[i:].lstrip())
        if s[i] != "(":
            raise Unfit("signature of " + f.name)
        e = matching(s, i)
        f.params = split_params(s[i + 1:e - 1])
        f.recv = None
        if f.params and f.params[0][0] == "self":
            f.recv = f.params.pop(0)[1]
        f.sig0 = m.start()
        mm = re.compile(r"\s*(->\s*)?").match(s, e)
        j = mm.end()
        f.ret = None
        f.ret0 = e
        k = j
        d = 0
        while s[k] not in "{;" or d:
            if s[k] in "<([":
                d += 1
            elif s[k] in ")]" or (s[k] == ">" and s[k - 1] != "-"):
                d -= 1
            k += 1
        if s[k] == ";":
            continue
        if mm.group(1):
            f.ret = re.sub(r"\s+", " ", s[j:k].split(" where ")[0].strip())
        f.body0 = k
        f.body1 = matching(s, k)
        out.append(f)
    for f in out:
        f.nested = any(g is not f and g.body0 < f.sig0 < g.body1 for g in out)
    return out


class Api:
    def __init__(self, repo):
        with open(os.path.join(repo, "src/lib.rs")) as f:
            self.b = Bridge(f.read())
        b = self.b
        if len(b.types) != 1:
            raise Unfit("opaque types of the bridge: %s" % b.types)
        self.T = b.types[0]
        self.rest = b.rest
        m = re.search(r"\bstruct\s+(\w+)\s*\{([^}]*)\}", self.rest)
        hs = []
        for m in re.finditer(r"\bstruct\s+(\w+)\s*\{([^}]*)\}", self.rest):
            for fl in split_top(m.group(2)):
                n, t = fl.split(":", 1)
                if re.search(r"\bUniquePtr\s*<[^>]*\b%s\s*>" % self.T, t):
                    hs.append((m.group(1), n.replace("pub", " ").split()[-1]))
        if len(hs) != 1:
            raise Unfit("the struct that owns the foreign builder")
        self.W, self.field = hs[0]
        self.fns = functions(self.rest)
        # the operation a wrapper of each name has to reach: the one bound to
        # the C++ function of that name
        self.cxx = {f.cxx: f for f in b.fns}
        self.alias = {}
        names = {f.name for f in self.fns}
        for f in b.fns:
            if f.name not in self.cxx:
                self.cxx[f.name] = f
                if f.cxx not in names and sum(g.cxx == f.cxx for g in b.fns) == 1:
                    self.alias[f.name] = f.cxx     # only spelled differently in C++

    def builders(self):
        return [f for f in self.b.fns if f.recv and "mut" in f.recv]

    # ---------------------------------------------------------------- types
    def fnptrs(self, s):
        """function pointer types -> opaque"""
        out, i = "", 0
        for m in re.finditer(r"\b(?:unsafe\s+)?(?:extern\s+\"C\"\s+)?fn\s*\(", s):
            if m.start() < i:
                continue
            e = matching(s, m.end() - 1)
            mm = re.compile(r"\s*->\s*[\w:<>]+").match(s, e)
            if mm:
                e = mm.end()
            out += s[i:m.start()] + "crate::VcFn"
            i = e
        return out + s[i:]

    def qual(self, t):
        """a type of the bridge as the rest of the crate names it"""
        return re.sub(r"\b(%s)\b" % "|".join(list(self.b.structs) + self.b.types),
                      lambda m: "crate::%s::%s" % (self.b.mod, m.group(1)), t)

    def deref(self, n, t):
        m = re.match(r"&\s*(?:'\w+\s+)?(mut\s+)?(.*)$", t)
        return ("*" + n, m.group(2)) if m else (n, t)

    # ---------------------------------------------------------- the contracts
    def contract(self, f):
        """(requires, ensures list) a function must meet, or None"""
        own = f.impl == self.W
        mod = "crate::" + self.b.mod
        empty = "%s.vc_target().vc_log() == Seq::<%s::VcCall>::empty()" % ("r", mod)
        if own and f.trait is None and f.public and not f.generic:
            op = self.cxx.get(f.name)
            if op is not None and op.recv and "mut" in op.recv and f.recv in ("&mut Self", "& mut Self"):
                if len(op.params) == len(f.params):
                    args = []
                    for (n, t), (_, ot) in zip(f.params, op.params):
                        by, ty = self.deref(n, t)
                        args.append(by)
                    return ([], [
                        ("the foreign %s is called exactly once, with the same arguments in the same order" % f.name,
                         "final(self).vc_target().vc_log() == old(self).vc_target().vc_log().push(%s::VcCall::%s(%s))"
                         % (mod, self.alias.get(f.name, f.name), ", ".join(args)))])
            if op is not None and op.recv and "mut" not in op.recv and (op.ret or "").startswith("Result"):
                if [t for _, t in op.params] == [t for _, t in f.params] and f.ret:
                    tgt = "old(self)" if "mut" in f.recv else "self"
                    names = ", ".join(n for n, _ in f.params)
                    ok = split_top(re.match(r"Result\s*<(.*)>$", op.ret).group(1))[0]
                    es = [("success hands back the foreign trajectory",
                           "%s.vc_target().vc_%s(%s) is Ok ==> r is Ok && r->Ok_0 == %s.vc_target().vc_%s(%s)->Ok_0"
                           % (tgt, op.cxx, names, tgt, op.cxx, names)),
                          ("failure hands back the foreign error's message",
                           "%s.vc_target().vc_%s(%s) is Err ==> r is Err && r->Err_0@ == %s.vc_target().vc_%s(%s)->Err_0.vc_text()"
                           % (tgt, op.cxx, names, tgt, op.cxx, names))]
                    if "mut" in f.recv:
                        es.append(("generating does not change the builder",
                                   "final(self).vc_target() == old(self).vc_target()"))
                    return ([], es)
            if f.name == "new" and not f.params and not f.recv and f.ret:
                return ([], [("a new builder is a new foreign builder", empty)])
        if own and f.trait and f.trait.split("::")[-1] == "Default" and f.name == "default":
            return ([], [("a default builder is a new foreign builder", empty)])
        if f.impl is None and f.public and not f.nested and not f.generic:
            op = self.cxx.get(f.name)
            if op is not None and not op.recv and not op.params and not op.ret:
                n = self.alias.get(f.name, f.name)
                return (["%s::vc_may_%s()" % (mod, n)],
                        [("the foreign %s is called" % f.name, "%s::vc_done_%s()" % (mod, n))])
        return None

    def candidate(self, f):
        """a contract tried for a helper; Verus has to prove it as well"""
        mod = "crate::" + self.b.mod
        ret = (f.ret or "").replace(" ", "")
        own = f.impl == self.W and f.trait is None
        ps = [t.replace(" ", "") for _, t in f.params]
        if f.generic:
            return None
        if own and f.recv and "mut" in f.recv and not ps and re.match(r"(\w+::)*Pin<&(mut|'_mut).*%s>$" % self.T, ret):
            return ([], [("", "crate::cxx::vc_before(r) == old(self).vc_target()"),
                         ("", "final(self).vc_target() == crate::cxx::vc_after(r)")])
        if own and f.recv == "&Self" and not ps and re.match(r"&(\w+::)*%s$" % self.T, ret) and "ffi" in ret:
            return ([], [("", "*r == self.vc_target()")])
        if ret in ("Self", self.W, "crate::" + self.W) and not f.recv and not ps:
            return ([], [("", "r.vc_target().vc_log() == Seq::<%s::VcCall>::empty()" % mod)])
        if ret in ("String", "std::string::String") and not f.recv and len(ps) == 1 and ps[0].endswith("Exception"):
            return ([], [("", "r@ == %s.vc_text()" % f.params[0][0])])
        if not f.recv and len(ps) == 1 and re.match(r"(\w+::)*Result<.*Exception>$", ps[0]) and ret.endswith("String>"):
            n = f.params[0][0]
            return ([], [("", "%s is Ok ==> r is Ok && r->Ok_0 == %s->Ok_0" % (n, n)),
                         ("", "%s is Err ==> r is Err && r->Err_0@ == %s->Err_0.vc_text()" % (n, n))])
        return None

    # ------------------------------------------------------------ the modules
    def shared_structs(self, derive=""):
        o = []
        for s, fs in self.b.structs.items():
            o.append("%s pub struct %s { %s }" % (derive, s, ", ".join("pub %s: %s" % (n, self.fnptrs(t)) for n, t in fs)))
        return "\n".join(o)

    def receiver(self, t):
        t = re.sub(r"\bPin\b", "core::pin::Pin", re.sub(r"\s+", " ", t))
        return t

    def result(self, t):
        m = re.match(r"Result\s*<(.*)>$", t)
        if m and len(split_top(m.group(1))) == 1:
            return "Result<%s, crate::cxx::Exception>" % m.group(1)
        return t.replace("UniquePtr", "crate::cxx::UniquePtr")

    def verus_text(self, external=(), nocand=(), loose=()):
        """(text, [(first line, last line, function)])"""
        b = self.b
        ops, variants, free, specs, seen = [], {}, [], [], set()
        for f in b.fns:
            ps = ", ".join("%s: %s" % (n, self.fnptrs(t)) for n, t in f.params)
            if f.recv and "mut" in f.recv:
                args = ", ".join(self.deref(n, t)[0] for n, t in f.params)
                for vn in {f.cxx, self.alias.get(f.name, f.name)}:
                    variants[vn] = "%s(%s)" % (vn, ", ".join(self.fnptrs(self.deref(n, t)[1]) for n, t in f.params))
                ops.append("#[verifier::external_body] pub fn %s(self: %s%s%s)%s\n"
                           "  ensures crate::cxx::vc_after(self).vc_log() == crate::cxx::vc_before(self).vc_log().push(VcCall::%s(%s))\n"
                           "  { unimplemented!() }" % (f.name, self.receiver(f.recv), ", " if ps else "", ps,
                                                       " -> (r: %s)" % self.result(f.ret) if f.ret else "", f.cxx, args))
            elif f.recv:
                if not f.ret:
                    raise Unfit("const operation without a result: " + f.name)
                specs.append("pub uninterp spec fn vc_%s(&self%s%s) -> %s;" % (f.cxx, ", " if ps else "", ps, self.result(f.ret)))
                ops.append("#[verifier::external_body] pub fn %s(self: %s%s%s) -> (r: %s)\n"
                           "  ensures r == self.vc_%s(%s)\n  { unimplemented!() }"
                           % (f.name, self.receiver(f.recv), ", " if ps else "", ps, self.result(f.ret), f.cxx,
                              ", ".join(n for n, _ in f.params)))
            elif f.ret and "UniquePtr" in f.ret and not f.params:
                free.append("#[verifier::external_body] pub fn %s() -> (r: %s)\n"
                            "  ensures r.vc_target().vc_log() == Seq::<VcCall>::empty()\n  { unimplemented!() }"
                            % (f.name, self.result(f.ret)))
            elif not f.ret and not f.params:
                for vn in {f.cxx, self.alias.get(f.name, f.name)} - seen:
                    seen.add(vn)
                    free.append("pub uninterp spec fn vc_may_%s() -> bool; pub uninterp spec fn vc_done_%s() -> bool;" % (vn, vn))
                free.append("#[verifier::external_body] pub fn %s() requires vc_may_%s() ensures vc_done_%s() { unimplemented!() }"
                            % (f.name, f.cxx, f.cxx))
            else:
                raise Unfit("operation " + f.name)
        head = HEAD + """
mod %s {
  use vstd::prelude::*;
  verus! {
  %s
  pub enum VcCall { %s }
  #[verifier::external_body] pub struct %s { p: core::marker::PhantomData<()> }
  impl %s {
    pub uninterp spec fn vc_log(&self) -> Seq<VcCall>;
    %s
    %s
  }
  %s
  }
}
verus! {
broadcast use crate::cxx::vc_display;
impl %s { pub closed spec fn vc_target(&self) -> crate::%s::%s { self.%s.vc_target() } }
""" % (b.mod, self.shared_structs(), ", ".join(variants.values()), self.T, self.T, "\n    ".join(specs), "\n    ".join(ops),
       "\n  ".join(free), self.W, b.mod, self.T, self.field)
        # the rest of lib.rs, with contracts
        s = self.rest
        marks = []
        out, i = "", 0
        for f in self.fns:
            if f.nested:
                continue
            c = self.contract(f)
            if c is None and f.name not in nocand:
                c = self.candidate(f)
            key = (f.impl, f.trait, f.name)
            out += s[i:f.sig0]
            start = len(out)
            if key in external:
                out += "#[verifier::external_body] "
            if f.ret and c:
                h = s[f.sig0:f.ret0] + " -> (r: %s)" % s[f.ret0:f.body0].strip()[2:].strip()
            else:
                h = s[f.sig0:f.body0]
            out += self.fnptrs(h)
            if c:
                if c[0]:
                    out += "\n  requires " + ", ".join(c[0])
                if c[1]:
                    out += "\n  ensures\n"
                    for what, e in c[1]:
                        a = len(out)
                        out += "    " + e + ",\n"
                        marks.append((a, len(out) - 1, ("clause", f, what)))
            out += self.closures(self.fnptrs(s[f.body0:f.body1]))
            marks.append((start, len(out), ("fn", f, None)))
            i = f.body1
        out += self.fnptrs(s[i:])
        # a caller of everything that must not reach a contradiction
        can, req = [], []
        mod = "crate::" + b.mod
        extra = []
        for f in self.fns:
            c = self.contract(f)
            if not c:
                continue
            req += c[0]
            tys = [self.fnptrs(t) for _, t in f.params]
            args = []
            for t in tys:
                v = "a%d" % len(extra)
                extra.append((v, t))
                args.append(v)
            if f.impl is None:
                can.append("%s(%s);" % (f.name, ", ".join(args)))
            elif f.recv:
                can.append("%s w.%s(%s);" % ("let _ =" if f.ret else "", f.name, ", ".join(args)))
            else:
                can.append("let _ = <%s>::%s(%s);" % (self.W, f.name, ", ".join(args)))
        canary = "\nfn vc_canary(w: &mut %s%s)\n%s{\n  %s\n  assert(false);\n}\nfn main() {}\n} // verus!\n" % (
            self.W, "".join(", %s: %s" % x for x in extra),
            "  requires " + ", ".join(req) + "\n" if req else "", "\n  ".join(can))
        text = head + out + canary
        off = len(head)

        def line(p):
            return text.count("\n", 0, p + off) + 1
        ranges = [(line(a), line(e), what) for a, e, what in marks]
        ranges.append((line(len(out)) + 1, text.count("\n") + 1, ("canary", None, None)))
        return text, ranges

    def closures(self, s):
        """map_err(|e| E)  ->  map_err(|e| -> (r: String) ensures r@ == e.vc_text() { E })"""
        s = re.sub(r"(?<![\w:])(?:std::string::|alloc::string::)?String::from\s*\(", "crate::vc_string_from(", s)
        s = re.sub(r"\bformat!\s*\(\s*\"\{\}\"\s*,\s*(\w+(?:\.what\(\))?)\s*,?\s*\)", r"\1.to_string()", s)
        s = re.sub(r"\bformat!\s*\(\s*\"\{(\w+)\}\"\s*,?\s*\)", r"\1.to_string()", s)
        s = re.sub(r"\.what\(\)\s*\.into\(\)", ".what().to_string()", s)
        m = re.search(r"\bmap_err\s*\(\s*\|\s*(\w+)\s*(?::\s*[\w:]+\s*)?\|", s)
        if not m:
            return s
        o = s.index("(", m.start())
        e = matching(s, o)
        body = s[m.end():e - 1].strip()
        v = m.group(1)
        return (s[:o + 1] + "|%s: crate::cxx::Exception| -> (r: String) ensures r@ == %s.vc_text() { %s }" % (v, v, body)
                + s[e - 1:])


HEAD = """#![allow(non_camel_case_types, unused, dead_code)]
use vstd::prelude::*;
verus! {
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(P)]
pub struct ExPin<P>(core::pin::Pin<P>);
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct VcFn { p: core::marker::PhantomData<()> }
#[verifier::external_body]
pub fn vc_string_from(s: &str) -> (r: String) ensures r@ == s@ { String::from(s) }
}
mod cxx {
  use vstd::prelude::*;
  verus! {
  #[verifier::external_body]
  #[verifier::reject_recursive_types(T)]
  pub struct UniquePtr<T> { p: core::marker::PhantomData<T> }
  // a pinned exclusive reference: the value it refers to when it is made and
  // when it is given up (it is not Copy, so exactly one call takes it)
  pub uninterp spec fn vc_before<T>(p: core::pin::Pin<&mut T>) -> T;
  pub uninterp spec fn vc_after<T>(p: core::pin::Pin<&mut T>) -> T;
  impl<T> UniquePtr<T> {
    pub uninterp spec fn vc_target(&self) -> T;
    #[verifier::external_body]
    pub fn pin_mut(&mut self) -> (r: core::pin::Pin<&mut T>)
      ensures vc_before(r) == old(self).vc_target(), final(self).vc_target() == vc_after(r)
      { unimplemented!() }
    // never null: nothing here makes a null one, and the foreign operation that
    // makes a builder is assumed to make one
    #[verifier::external_body]
    pub fn is_null(&self) -> (r: bool) ensures !r { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: Option<&T>) ensures r is Some && *r->0 == self.vc_target() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_mut(&mut self) -> (r: Option<core::pin::Pin<&mut T>>)
      ensures r is Some && vc_before(r->0) == old(self).vc_target(), final(self).vc_target() == vc_after(r->0)
      { unimplemented!() }
  }
  impl<T> core::ops::Deref for UniquePtr<T> {
    type Target = T;
    #[verifier::external_body]
    fn deref(&self) -> (r: &T) ensures *r == self.vc_target() { unimplemented!() }
  }
  #[verifier::external_body]
  pub struct Exception { p: core::marker::PhantomData<()> }
  impl Exception {
    pub uninterp spec fn vc_text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn what(&self) -> (r: &str) ensures r@ == self.vc_text() { unimplemented!() }
  }
  #[verifier::external]
  impl core::fmt::Display for Exception {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() }
  }
  // cxx: an Exception is displayed as its message
  pub broadcast axiom fn vc_display(e: &Exception, s: String)
    requires #[trigger] vstd::string::to_string_from_display_ensures::<Exception>(e, s)
    ensures s@ == e.vc_text();
  }
}
"""


def run_verus(text, rlimit=30):
    """(verdict json or None, [(message, [(line0, line1, primary, text)])], seconds)"""
    t = time.time()
    with tempfile.TemporaryDirectory(prefix="rustvc") as d:
        p = os.path.join(d, "api.rs")
        with open(p, "w") as f:
            f.write(text)
        r = subprocess.run(["verus", p, "--output-json", "--error-format=json", "--multiple-errors", "20",
                            "--rlimit", str(rlimit)],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=d, timeout=600)
    try:
        v = json.loads(r.stdout)["verification-results"]
    except (ValueError, KeyError):
        v = None
    errs = []
    for l in r.stderr.splitlines():
        try:
            x = json.loads(l)
        except ValueError:
            continue
        if x.get("level") == "error" and x.get("spans"):
            errs.append((x["message"], [(q["line_start"], q["line_end"], q["is_primary"]) for q in x["spans"]
                                        if q["file_name"].endswith("api.rs")], x.get("rendered", "")))
    return v, errs, time.time() - t
