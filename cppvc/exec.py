"""Symbolic execution of the real function bodies (clang AST) into
verification conditions.  Loops are summarised by closed forms which are then
*verified* as loop invariants (base, preservation, trip count)."""
import fractions
import math
import re
import struct
import sys
import time
import z3

import types_ as T
import values as V
import prove as P
from values import *
from front import params_of, body_of, FUNC_KINDS

sys.setrecursionlimit(20000)

MAXSZ = 2 ** 60


class Dead(Exception):
    """This path does not continue (throw / abort)."""


class NeedReturn(Exception):
    pass


class State:
    __slots__ = ("cells", "pc", "env", "this", "stack", "loops", "throws",
                 "heapsites", "flags")

    def __init__(self):
        self.cells = {}
        self.pc = []
        self.env = {}
        self.this = None
        self.stack = ()
        self.loops = ()
        self.throws = []     # (pc, what)
        self.flags = {}

    def copy(self):
        s = State()
        s.cells = dict(self.cells)
        s.pc = list(self.pc)
        s.env = dict(self.env)
        s.this = self.this
        s.stack = self.stack
        s.loops = self.loops
        s.throws = list(self.throws)
        s.flags = dict(self.flags)
        return s

    def take(self, o):
        self.cells = o.cells
        self.pc = o.pc
        self.env = o.env
        self.this = o.this
        self.stack = o.stack
        self.loops = o.loops
        self.throws = o.throws
        self.flags = o.flags

    def assume(self, c):
        c = simp(c)
        if not z3.is_true(c):
            self.pc.append(c)


class Obligation:
    __slots__ = ("func", "name", "hyps", "goal", "res", "ranged")

    def __init__(self, func, name, hyps, goal):
        self.func = func
        self.name = name
        self.hyps = hyps
        self.goal = goal
        self.res = None
        self.ranged = None


class FuncRef:
    def __init__(self, node, this=None):
        self.node = node
        self.this = this


def real_of_float(s):
    f = float(s)
    if math.isinf(f) or math.isnan(f):
        raise Unsupported("non-finite literal")
    fr = fractions.Fraction(f)
    # a literal such as 0.1 stands for the decimal it spells: keep it exact
    try:
        fr = fractions.Fraction(s)
    except (ValueError, ZeroDivisionError):
        pass
    return z3.RealVal(str(fr))


def round32(v):
    """the float nearest to v: exact for the literals that are floats, unknown
    otherwise"""
    if z3.is_rational_value(v):
        f = v.as_fraction()
        try:
            if fractions.Fraction(struct.unpack("f", struct.pack("f", float(f)))[0]) == f:
                return v
        except (OverflowError, struct.error):
            pass
    elif z3.is_app(v) and v.decl().eq(P.FL32):
        return v
    return simp(P.FL32(v))


PI_VAL = P.PI


# fields of sleipnir::SolverConfig (no property looks at them)
CONFIG = ("tolerance", "maxIterations", "acceptableTolerance", "maxAcceptableIterations",
          "timeout", "feasibleIPM", "diagnostics", "spy")


def _conditional(p):
    """a concatenation of sequences that hold elements under conditions"""
    def has(q):
        if isinstance(q, V.IteP):
            return True
        if isinstance(q, V.Flat):
            return any(has(x) for x in q.inner.pieces)
        return False
    return isinstance(p, V.Flat) and any(has(x) for x in p.inner.pieces)


def _parts(p):
    """the kinds of sequence a piece is made of"""
    if isinstance(p, V.IteP):
        for q in (p.a, p.b):
            for x in (q.pieces if isinstance(q, Vec) else [q]):
                yield from _parts(x)
    elif isinstance(p, V.Flat):
        for x in p.inner.pieces:
            yield from _parts(x)
    else:
        yield p


def _mixed(v):
    """a list of variants put together from several parts"""
    ps = [q for p in v.pieces for q in _parts(p)]
    return len(ps) > 1 and all(isinstance(q, (V.One, V.Sym)) for q in ps) and \
        any(isinstance(q.v if isinstance(q, V.One) else q.elem, Variant) for q in ps)


def composite(v):
    return any(_conditional(p) for p in v.pieces) or _mixed(v)


def listed(v):
    """a short list of pointers, references or functions"""
    def held(x):
        if isinstance(x, Struct):
            return any(held(y) for y in x.f.values())
        return isinstance(x, (Ref, Closure, FuncV, FuncRef))
    return 0 < len(v.pieces) <= 16 and all(isinstance(p, V.One) and held(p.v) for p in v.pieces)


class Executor:
    def __init__(self, prog, contracts=None):
        self.prog = prog
        self.obs = []
        self.muted = 0
        self.optimistic = 0
        self.stable = True
        self.contracts = contracts or {}
        self.used_contracts = set()
        self.inlined = set()
        self.settled = set()
        self.lazy0 = {}
        self.cur = None
        self.func = "?"
        self.ncell = 0
        self.dcache = {}
        self.keep = []
        self.statics = {}
        self.trace_calls = {}
        self.loop_count = 0
        self.deadline = None
        self.notes = set()
        self.infer_time = 0.0
        V._decider[0] = self.decide

    # ------------------------------------------------------------- utilities
    def new_cell(self, st, v, hint="t"):
        self.ncell += 1
        c = "%s#%d" % (hint, self.ncell)
        st.cells[c] = v
        return Ref(c)

    def decide(self, c):
        if self.cur is None:
            return None
        pc = self.cur.pc
        key = (tuple(x.get_id() for x in pc), c.get_id())
        r = self.dcache.get(key)
        if r is not None:
            return r[0]
        r = None
        if self.quick(pc, c):
            r = True
        elif self.quick(pc, Not(c)):
            r = False
        self.keep.append((list(pc), c))
        self.dcache[key] = (r,)
        return r

    def quick(self, pc, c):
        t = time.time()
        hyps = P.relevant(P.flatten(pc), c)
        ax = P.axioms(hyps + [c], rounds=2)
        s = z3.SolverFor("QF_UFLIRA") if False else z3.Solver()
        s.set("timeout", 400)
        s.add(hyps + ax + [z3.Not(c)])
        r = s.check() == z3.unsat
        self.infer_time += time.time() - t
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the symbolic execution used up")
        return r

    def ob(self, st, name, goal, assume=True):
        goal = simp(goal)
        if self.optimistic:
            st.assume(goal)
            return
        if not self.muted:
            self.obs.append(Obligation(self.func, name, list(st.pc), goal))
        if assume:
            st.assume(goal)

    # --------------------------------------------------------------- memory
    def load(self, st, r):
        if not isinstance(r, Ref):
            return r
        if r.cell not in st.cells:
            raise Unsupported("dangling reference " + r.cell)
        v = st.cells[r.cell]
        for p in r.path:
            v = self.step(v, p)
        return v

    def step(self, v, p):
        if isinstance(p, str):
            if isinstance(v, Struct):
                if p not in v.f:
                    raise Unsupported("no field %s in %s" % (p, v.ty))
                return v.f[p]
            if isinstance(v, Variant) and p.startswith("$alt"):
                return v.alts[int(p[4:])]
            raise Unsupported("field %s of %s" % (p, type(v).__name__))
        if isinstance(v, Vec):
            return v.at(p)
        raise Unsupported("index into %s" % type(v).__name__)

    def store(self, st, r, v):
        if not isinstance(r, Ref):
            raise Unsupported("store to non-reference")
        st.cells[r.cell] = self._upd(st.cells.get(r.cell), r.path, v)

    def _upd(self, root, path, v):
        if not path:
            return v
        p = path[0]
        if isinstance(p, str):
            if isinstance(root, Struct):
                return root.with_field(p, self._upd(root.f.get(p), path[1:], v))
            if isinstance(root, Variant) and p.startswith("$alt"):
                alts = list(root.alts)
                i = int(p[4:])
                alts[i] = self._upd(alts[i], path[1:], v)
                return Variant(root.types, root.tag, alts)
            raise Unsupported("store to field %s of %s" % (p, type(root).__name__))
        if isinstance(root, Vec):
            old = root.at(p) if len(path) > 1 else None
            return self.vec_update(root, p, self._upd(old, path[1:], v))
        raise Unsupported("store into %s" % type(root).__name__)

    def vec_update(self, vec, i, v):
        i = simp(i)
        ps = vec.pieces
        # last element just appended?
        if ps and isinstance(ps[-1], One):
            off = simp(vec.size() - 1)
            if decide(simp(i == off)) is True:
                return Vec(vec.ety, ps[:-1] + (One(v),))
        if len(ps) == 1 and isinstance(ps[0], UpdP) and \
                decide(simp(ps[0].i == i)) is True:
            return ps[0].base.update(ps[0].i, v)
        if len(ps) > 1 and all(isinstance(p, One) for p in ps) and z3.is_int_value(i):
            n = i.as_long()
            if 0 <= n < len(ps):
                return Vec(vec.ety, ps[:n] + (One(v),) + ps[n + 1:])
        return vec.update(i, v)

    def rv(self, st, x):
        """value of an evaluated expression (load if it is a reference)"""
        return self.load(st, x) if isinstance(x, Ref) else x

    # ------------------------------------------------------------ fresh data
    def fresh(self, ty, name, idx=(), leaf=None):
        """A symbolic value of the given type: uninterpreted functions of idx."""
        t = ty
        sorts = [I] * len(idx)

        def app(nm, rng):
            if idx:
                return z3.Function(nm, *(sorts + [rng]))(*idx)
            return z3.Const(nm, rng)
        if T.is_float(t):
            return app(name, R)
        if T.is_bool(t):
            return app(name, B)
        if T.is_int(t):
            P.RANGED[name] = T.INTS[t.name]
            return app(name, I)
        k = t.canon()
        if t.name in ("vector", "Vec", "initializer_list", "span"):
            n = name + ".size"
            P.RANGED[n] = (0, MAXSZ)
            J = fresh_int("j")
            e = self.fresh(t.args[0], name + "[]", tuple(idx) + (J,))
            return Vec(t.args[0].canon(), (Sym(app(n, I), J, e),))
        if t.name == "Variable":
            return SVar(app(name, R))
        if t.name == "variant":
            n = name + ".tag"
            P.RANGED[n] = (0, len(t.args) - 1)
            return Variant(t.args, app(n, I),
                           [self.fresh(a, "%s.%d" % (name, i), idx)
                            for i, a in enumerate(t.args)])
        if t.name == "function" or (t.name == "Fn" and "rust" in t.quals):
            return FuncV(name, idx)
        if t.name == "optional" and t.args:
            return Struct("optional", {"has": app(name + ".has", B), "val": self.fresh(t.args[0], name + ".val", idx)})
        rec = self.prog.records.get(k)
        if rec is None:
            rec = self.prog.records.get(t.name) if not t.args else None
        if rec is not None:
            return Struct(k, {f: self.fresh(self.field_ty(rec, f), name + "." + f, idx)
                              for f in rec.fields})
        if t.name in ("pair",):
            return Struct(k, {"first": self.fresh(t.args[0], name + ".first", idx),
                              "second": self.fresh(t.args[1], name + ".second", idx)})
        return Opaque(name, tuple(idx))

    def field_ty(self, rec, f):
        return self.prog.ty(rec.ftypes[f])

    def record_of(self, ty):
        k = ty.canon()
        r = self.prog.records.get(k)
        if r is None and not ty.args:
            r = self.prog.records.get(ty.name)
        return r

    def default(self, st, ty):
        """value-initialisation"""
        if T.is_float(ty):
            return z3.RealVal(0)
        if T.is_int(ty):
            return ZERO
        if T.is_bool(ty):
            return FALSE
        if ty.ptr:
            return Opaque("nullptr")
        if ty.name in ("vector", "Vec", "initializer_list"):
            return Vec(ty.args[0].canon())
        if ty.name == "Variable":
            return SVar(z3.RealVal(0))
        if ty.name == "variant":
            return Variant(ty.args, ZERO, [self.default(st, ty.args[0])] +
                           [None] * (len(ty.args) - 1))
        if ty.name == "OptimizationProblem":
            return self.new_problem(st)
        if ty.name == "array":
            n = int(ty.args[1].name) if ty.args[1].name.isdigit() else None
            if n is not None:
                return Vec(ty.args[0].canon(), tuple(One(self.default(st, ty.args[0]))
                                                     for _ in range(n)))
        if ty.name == "optional" and ty.args:
            import lib
            return lib.no_value(self, st, ty.args[0])
        if ty.name == "pair":
            return Struct(ty.canon(), {"first": self.default(st, ty.args[0]),
                                       "second": self.default(st, ty.args[1])})
        rec = self.record_of(ty)
        if rec is not None:
            # a user-provided default constructor?
            for c in rec.ctors:
                if not params_of(c) and not c.get("isImplicit") and \
                        not c.get("explicitlyDefaulted") and self.body(c):
                    return self.construct_with(st, rec, ty, c, [])
            return self.agg_default(st, rec, ty)
        if ty.name in ("basic_string", "string"):
            return Opaque("str", ("",))
        if ty.name == "SolverConfig":
            return Struct("SolverConfig", {c: Opaque("defaultinit") for c in CONFIG})
        raise Unsupported("default value of " + ty.canon())

    def agg_default(self, st, rec, ty):
        f = {}
        v = Struct(ty.canon(), f)
        for n in rec.fields:
            init = rec.finit.get(n)
            if init is None:
                init = self.tmpl_finit(ty, n)
            if init is not None:
                x = self.rv(st, self.eval(st, init))
                f[n] = self.convert(st, x, self.prog.ty(init), self.field_ty(rec, n))
            else:
                f[n] = self.default(st, self.field_ty(rec, n))
        return v

    def tmpl_finit(self, ty, field):
        """in-class initialiser taken from the class template's pattern"""
        for i, n in self.prog.by_id.items():
            if n["kind"] == "FieldDecl" and n.get("name") == field:
                par = self.prog.parent.get(i)
                if par and par.get("kind") == "CXXRecordDecl" and par.get("name") == ty.name:
                    for y in n.get("inner", ()):
                        if y.get("kind", "").endswith(("Expr", "Literal", "Operator")):
                            return y
        return None

    def new_problem(self, st):
        r = self.new_cell(st, Log(uid("log")), "log")
        t = self.new_cell(st, Trace(uid("ptrace")), "ptrace")
        return Struct("OptimizationProblem", {
            "log": Log("problem"), "trace": Trace("problem"),
            "objective": Opaque("none"), "callback": Opaque("none"),
            "solved": FALSE})

    def convert(self, st, v, fr, to):
        """implicit conversion of a value to type `to`"""
        if isinstance(v, Ref) and not to.ptr:
            v = self.load(st, v)
        if to.name == "Variable" and not isinstance(v, SVar):
            if isinstance(v, z3.ExprRef):
                if v.sort() == I:
                    v = z3.ToReal(v)
                return SVar(simp(v))
            raise Unsupported("conversion to Variable from %s" % type(v).__name__)
        if T.is_float(to):
            if isinstance(v, z3.ExprRef) and v.sort() == I:
                v = simp(z3.ToReal(v))
            elif isinstance(v, z3.ExprRef) and v.sort() == B:
                v = ite(v, z3.RealVal(1), z3.RealVal(0))
            if to.name == "float" and isinstance(v, z3.ExprRef) and v.sort() == R \
                    and not (fr is not None and fr.name == "float"):
                return round32(v)
            return v
        if T.is_int(to):
            if isinstance(v, z3.ExprRef):
                if v.sort() == R:
                    return self.wrap(st, self.trunc_int(v), to, "float to int conversion", conv=True)
                if v.sort() == B:
                    return ite(v, ONE, ZERO)
                if fr is not None and T.INTS.get(fr.name) is not None and \
                        T.INTS[fr.name][0] >= T.INTS[to.name][0] and \
                        T.INTS[fr.name][1] <= T.INTS[to.name][1]:
                    return v
                return self.wrap(st, v, to, "integer conversion", conv=True)
            return v
        if T.is_bool(to):
            if isinstance(v, z3.ExprRef) and v.sort() == I:
                return simp(v != 0)
            if isinstance(v, z3.ExprRef) and v.sort() == R:
                return simp(v != 0)
            return v
        if to.name == "variant" and not isinstance(v, Variant):
            return self.to_variant(v, fr, to)
        if isinstance(v, z3.ExprRef) and self.record_of(to) is not None:
            return self.construct(st, to, [(v, fr)])
        return v

    def to_variant(self, v, fr, to):
        want = fr.canon()
        if isinstance(v, Struct):
            want = v.ty
        for i, a in enumerate(to.args):
            if a.canon() == want:
                alts = [None] * len(to.args)
                alts[i] = v
                return Variant(to.args, lit(i), alts)
        raise Unsupported("variant alternative " + want)

    @staticmethod
    def trunc_int(x):
        return ite(x >= 0, z3.ToInt(x), -z3.ToInt(-x))

    def wrap(self, st, t, ty, what, conv=False):
        """bring the mathematical integer t into the range of ty"""
        t = simp(t)
        lo, hi = T.INTS[ty.name]
        if z3.is_int_value(t) and lo <= t.as_long() <= hi:
            return t
        if self.optimistic:
            st.assume(z3.And(t >= lo, t <= hi))
            return t
        inr = z3.And(t >= lo, t <= hi)
        if self.decide(simp(inr)) is True:
            return t
        w = hi - lo + 1
        if lo == 0:
            return simp(ite(inr, t, t % w))
        if conv:
            return simp(ite(inr, t, (t - lo) % w + lo))
        self.ob(st, "no signed overflow (%s)" % what, inr)
        return t

    # -------------------------------------------------------------- functions
    def qual(self, f):
        return "::".join(self.prog.qual_of(f))

    def body(self, f):
        d = self.prog.defn.get(f["id"])
        return body_of(d) if d is not None else body_of(f)

    def call(self, st, f, this, args):
        """args: evaluated (Ref or value) in parameter order.  Returns value."""
        self.cur = st
        f = self.prog.defn.get(f["id"], f)
        q = self.qual(f)
        short = q[len("trajopt::"):] if q.startswith("trajopt::") else q
        ct = self.contracts.get(short)
        if ct is not None and short != self.func:
            r = ct(self, st, this, args, f)
            if r is not NotImplemented:
                self.used_contracts.add(short)
                return r
        b = body_of(f)
        if b is None:
            if f.get("explicitlyDefaulted") or f.get("isImplicit"):
                return self.implicit_member(st, f, this, args)
            raise Unsupported("no body for " + q)
        if len(st.stack) > 80:
            raise Unsupported("call depth")
        self.inlined.add(short)
        env0, this0, stack0 = st.env, st.this, st.stack
        st.env = dict(env0) if f.get("name") == "operator()" else {}
        st.this = this
        st.stack = st.stack + (f["id"],)
        self.bind_params(st, f, args)
        outs = self.run_body(st, b)
        st2, val = self.join(outs, f)
        st.take(st2)
        st.env, st.this, st.stack = env0, this0, stack0
        return val

    def ret_is_ref(self, f):
        t = f["type"].get("desugaredQualType") or f["type"]["qualType"]
        head = t.split("(")[0].strip()
        if "->" in t:
            head = t.rsplit("->", 1)[1].strip()
        return head.endswith("&")

    def bind_params(self, st, f, args):
        ps = params_of(f)
        if len(args) > len(ps):
            raise Unsupported("too many arguments")
        for i, p in enumerate(ps):
            ty = self.prog.ty(p)
            if i < len(args):
                a = args[i]
            else:
                init = [x for x in p.get("inner", ()) if x.get("kind") != "FullComment"]
                if not init:
                    raise Unsupported("missing argument")
                a = self.eval(st, init[0])
            self.bind_var(st, p, ty, a)

    def implicit(self, st, a, ty):
        """a number passed for a class that is constructed from one (calls made
        by library templates carry no conversion in the syntax tree)"""
        if ty.ptr or self.record_of(ty.noref()) is None or not isinstance(a, (Ref, z3.ExprRef, SVar)):
            return a
        v = self.load(st, a) if isinstance(a, Ref) else a
        if isinstance(v, SVar):
            vt = T.parse("sleipnir::Variable")
        elif isinstance(v, z3.ExprRef) and v.sort() == R:
            vt = T.parse("double")
        else:
            return a
        return self.construct(st, ty.noref(), [(v, vt)])

    def bind_var(self, st, decl, ty, a):
        a = self.implicit(st, a, ty)
        if ty.ref:
            if isinstance(a, Ref):
                tgt = self.load(st, a) if False else None
                st.env[decl["id"]] = a
            else:
                a = self.convert(st, a, ty, ty.noref()) if not isinstance(a, (Struct, Vec, Closure, FuncV, Variant)) else a
                st.env[decl["id"]] = self.new_cell(st, a, decl.get("name", "p"))
        else:
            if isinstance(a, Ref) and not ty.ptr:
                a = self.load(st, a)
            if not ty.ptr:
                a = self.convert(st, a, ty, ty)
            st.env[decl["id"]] = self.new_cell(st, a, decl.get("name", "p"))

    def run_body(self, st, b):
        """-> list of (state, flow, value)"""
        return self.exec(st, b)

    def join(self, outs, f=None):
        rets = []
        throws = []
        for (s, flow, val) in outs:
            if flow == "throw":
                throws.append((list(s.pc), val))
            elif flow == "dead":
                throws.extend(val or [])
            elif flow in ("break", "continue"):
                raise Unsupported("stray " + flow)
            else:
                rets.append((s, val if val is not None else UNIT))
            throws.extend(s.throws)
        uniq = []
        for t in throws:
            if not any(t is u for u in uniq):
                uniq.append(t)
        if not rets:
            raise Dead(uniq)
        s, v = self.join_list(rets)
        s.throws = uniq
        return s, v

    def join_list(self, items):
        if len(items) == 1:
            return items[0]
        pcs = [s.pc for s, _ in items]
        n = 0
        m = min(len(p) for p in pcs)
        while n < m and all(p[n].eq(pcs[0][n]) for p in pcs):
            n += 1
        groups = []
        for it in items:
            key = it[0].pc[n] if len(it[0].pc) > n else None
            for g in groups:
                if (key is None) == (g[0] is None) and (key is None or g[0].eq(key)):
                    g[1].append(it)
                    break
            else:
                groups.append((key, [it]))
        if len(groups) == 1:
            raise Unsupported("cannot join outcomes")
        merged = [(k, self.join_list(g)) for k, g in groups]
        k, acc = merged[-1]
        for k2, it in reversed(merged[:-1]):
            if k2 is None:
                raise Unsupported("cannot join outcomes (no condition)")
            base = list(it[0].pc[:n])
            acc = self.merge_states(k2, it, acc, base)
        return acc

    def untouched(self, key, seen):
        """what a cell made on first use holds where it has not been used"""
        if key == "$trace":
            return Trace(seen.base)
        if key.startswith("val:"):
            import loops
            return loops.untouched_values(key, seen)
        return self.lazy0.get(key)

    def merge_states(self, c, a, b, base):
        sa, va = a
        sb, vb = b
        old = self.cur
        tmp = sa.copy()
        tmp.pc = list(base)
        self.cur = tmp
        s = sa.copy()
        n = len(base)
        s.pc = list(base)
        nc = Not(c)
        for x in sa.pc[n:]:
            if not x.eq(c):
                s.assume(Implies(c, x))
        for x in sb.pc[n:]:
            if not x.eq(nc):
                s.assume(Implies(nc, x))
        cells = dict(sb.cells)
        for k, v in sb.cells.items():
            if k not in sa.cells:
                u = self.untouched(k, v)
                if u is not None and u is not v:
                    cells[k] = V.merge_v(c, u, v)
        for k, v in sa.cells.items():
            w = sb.cells.get(k)
            if w is None:
                w = self.untouched(k, v)
            if w is None:
                cells[k] = v
            elif w is not v:
                cells[k] = V.merge_v(c, v, w)
        s.cells = cells
        env = {}
        for k, r in sa.env.items():
            r2 = sb.env.get(k)
            if r2 is not None and (r2 is r or same(r, r2)):
                env[k] = r
        s.env = env
        s.throws = sa.throws + [t for t in sb.throws if not any(t is u for u in sa.throws)]
        fl = dict(sb.flags)
        for k, x in sa.flags.items():
            if k in fl and fl[k] is not x and fl[k] != x:
                raise Unsupported("merge of flags " + k)
            fl[k] = x
        s.flags = fl
        if va is None and vb is None:
            v = None
        elif va is None or vb is None:
            v = va if va is not None else vb
        elif va is UNIT or vb is UNIT:
            v = UNIT
        else:
            if isinstance(va, Ref) != isinstance(vb, Ref):
                va = self.load(sa, va) if isinstance(va, Ref) else va
                vb = self.load(sb, vb) if isinstance(vb, Ref) else vb
            v = V.merge_v(c, va, vb)
        self.cur = old
        return s, v

    def branch(self, st, c, fa, fb):
        """evaluate fa/fb (functions of a state) under c / not c, merge into st"""
        c = simp(c)
        d = self.decide_in(st, c)
        if d is True:
            return fa(st)
        if d is False:
            return fb(st)
        base = list(st.pc)
        sa = st.copy()
        sa.pc.append(c)
        sb = st.copy()
        sb.pc.append(Not(c))
        res = []
        deadt = []
        for s, fn in ((sa, fa), (sb, fb)):
            try:
                self.cur = s
                v = fn(s)
                res.append((s, v))
            except Dead as e:
                deadt.append((s, e))
                res.append(None)
        if res[0] is None and res[1] is None:
            raise Dead(sum((e.args[0] if e.args else [] for _, e in deadt), []))
        if res[0] is None or res[1] is None:
            s, v = res[0] or res[1]
            s.throws = s.throws + [t for _, e in deadt for t in (e.args[0] if e.args else [])]
            st.take(s)
            self.cur = st
            return v
        s, v = self.merge_states(c, res[0], res[1], base)
        st.take(s)
        self.cur = st
        return v

    def decide_in(self, st, c):
        self.cur = st
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.decide(c)

    # -------------------------------------------------------------- statements
    def exec(self, st, n):
        self.cur = st
        if not n:
            return [(st, "normal", None)]
        k = n["kind"]
        m = getattr(self, "x_" + k, None)
        if m is not None:
            return m(st, n)
        # expression statement
        try:
            self.eval(st, n)
        except Dead as e:
            return [(st, "dead", e.args[0] if e.args else [])]
        return [(st, "normal", None)]

    def seq(self, st, stmts):
        """execute statements in order; merge normal outcomes as they appear"""
        outs = []
        cur = st
        for s in stmts:
            if s.get("kind") == "FullComment":
                continue
            r = self.exec(cur, s)
            normal = [(x, v) for x, fl, v in r if fl == "normal"]
            outs.extend(o for o in r if o[1] not in ("normal",))
            if not normal:
                return outs
            if len(normal) == 1:
                cur = normal[0][0]
            else:
                cur = self.join_list(normal)[0]
        outs.append((cur, "normal", None))
        return outs

    def x_CompoundStmt(self, st, n):
        return self.seq(st, n.get("inner", ()))

    def x_NullStmt(self, st, n):
        return [(st, "normal", None)]

    def x_AttributedStmt(self, st, n):
        inner = [x for x in n["inner"] if not x.get("kind", "").endswith("Attr")]
        return self.exec(st, inner[0])

    def x_DeclStmt(self, st, n):
        try:
            for d in n.get("inner", ()):
                self.decl(st, d)
        except Dead as e:
            return [(st, "dead", e.args[0] if e.args else [])]
        return [(st, "normal", None)]

    def init_of(self, d):
        xs = [x for x in d.get("inner", ()) if x.get("kind") not in
              ("FullComment", "BindingDecl") and not x.get("kind", "").endswith("Attr")]
        return xs[-1] if xs and "init" in d else None

    def decl(self, st, d):
        k = d["kind"]
        if k in ("TypeAliasDecl", "TypedefDecl", "StaticAssertDecl", "UsingDecl",
                 "UsingDirectiveDecl", "EmptyDecl", "CXXRecordDecl", "NamespaceAliasDecl"):
            return
        if k == "DecompositionDecl":
            import lib
            init = self.init_of(d)
            ty = self.prog.ty(d)
            a = self.eval(st, init)
            self.bind_var(st, d, ty, a)
            pos = 0
            for bd in d.get("inner", ()):
                if bd.get("kind") == "BindingDecl":
                    base = st.env[d["id"]]
                    whole = self.load(st, base) if isinstance(base, Ref) else base
                    if any(x.get("kind") == "VarDecl" for x in bd.get("inner", ())) and isinstance(whole, Struct) \
                            and lib.tuple_fields(whole):
                        # get<pos> of a pair or tuple
                        if not isinstance(base, Ref):
                            base = self.new_cell(st, whole, "bound")
                        r = base.field(lib.tuple_fields(whole)[pos])
                        if isinstance(self.load(st, r), Ref) and not self.is_pointer(whole.ty, pos):
                            r = self.load(st, r)
                        st.env[bd["id"]] = r
                        pos += 1
                        continue
                    e = [x for x in bd.get("inner", ()) if "kind" in x and x["kind"] != "VarDecl"]
                    if e and not any(x.get("kind") == "VarDecl" for x in bd.get("inner", ())):
                        r = self.eval(st, e[0])
                    else:
                        hv = [x for x in bd.get("inner", ()) if x.get("kind") == "VarDecl"]
                        self.decl(st, hv[0])
                        r = st.env[hv[0]["id"]]
                    if not isinstance(r, Ref):
                        r = self.new_cell(st, r, bd.get("name", "b"))
                    st.env[bd["id"]] = r
            return
        if k != "VarDecl":
            raise Unsupported("declaration " + k)
        ty = self.prog.ty(d)
        init = self.init_of(d)
        if d.get("storageClass") == "static" and init is not None and not _calls_now(init) and \
                (d.get("constexpr") or re.match(r"const\b(?!.*\*)", d.get("type", {}).get("qualType", ""))) and \
                not _varies(init, st, self.settled):
            a = self.eval(st, init)
            self.bind_var(st, d, ty, a)
            self.settled.add(d["id"])
            return
        if d.get("storageClass") == "static":
            key = "static:" + d["id"]
            if key not in st.cells:
                # value at entry is unknown: initialised by an earlier call or now
                v = self.static_value(st, d, ty, init)
                st.cells[key] = self.lazy0[key] = v
            st.env[d["id"]] = Ref(key)
            return
        if init is None:
            if ty.name in ("vector", "Vec", "Variable") or self.record_of(ty) is not None:
                v = self.default(st, ty)
            elif T.is_float(ty) or T.is_int(ty) or T.is_bool(ty):
                v = self.fresh(ty, uid("uninit_" + d.get("name", "v")))
            else:
                v = self.default(st, ty)
            st.env[d["id"]] = self.new_cell(st, v, d.get("name", "v"))
            return
        a = self.eval(st, init)
        if ty.name == "auto" or ty.name == "lambda":
            if isinstance(a, Ref) and not ty.ref:
                a = self.load(st, a)
            st.env[d["id"]] = a if isinstance(a, Ref) else self.new_cell(st, a, d.get("name", "v"))
            return
        self.bind_var(st, d, ty, a)

    def static_value(self, st, d, ty, init):
        if self.prog.ty(d).name in ("atomic",):
            return self.fresh(T.parse("int"), "static_" + d.get("name", "s"))
        if ty.name in ("time_point", "duration") or init is not None and _calls_now(init):
            return z3.Real(uid("static_" + d.get("name", "s")))
        nm = "static_" + d.get("name", "s")
        if T.is_float(ty) or T.is_int(ty) or T.is_bool(ty) or ty.name in ("vector",):
            return self.fresh(ty, uid(nm))       # whatever an earlier call left there
        return Opaque(nm)

    def x_ReturnStmt(self, st, n):
        inner = n.get("inner", ())
        try:
            v = self.eval(st, inner[0]) if inner else UNIT
        except Dead as e:
            return [(st, "dead", e.args[0] if e.args else [])]
        if isinstance(v, Ref) and inner and inner[0].get("valueCategory") == "prvalue" \
                and not self.prog.ty(inner[0]).ptr:
            v = self.load(st, v)
        return [(st, "return", v)]

    def x_BreakStmt(self, st, n):
        return [(st, "break", None)]

    def x_ContinueStmt(self, st, n):
        return [(st, "continue", None)]

    def x_IfStmt(self, st, n):
        inner = list(n["inner"])
        try:
            if n.get("hasInit"):
                for o in self.exec(st, inner.pop(0)):
                    pass
            if n.get("hasVar"):
                self.exec(st, inner.pop(0))
            if n.get("isConstexpr"):
                c = self.rv(st, self.eval(st, inner[0]))
            else:
                c = self.rv(st, self.eval(st, inner[0]))
        except Dead as e:
            return [(st, "dead", e.args[0] if e.args else [])]
        c = self.as_bool(c)
        a = inner[1]
        b = inner[2] if len(inner) > 2 else None
        return self.fork(st, c, lambda s: self.exec(s, a),
                         lambda s: self.exec(s, b) if b else [(s, "normal", None)])

    def fork(self, st, c, fa, fb):
        """outcomes of two statements under c / not c; normal outcomes merged"""
        d = self.decide_in(st, c)
        if d is True:
            return fa(st)
        if d is False:
            return fb(st)
        base = list(st.pc)
        sa = st.copy()
        sa.pc.append(simp(c))
        sb = st.copy()
        sb.pc.append(Not(c))
        oa = fa(sa)
        ob = fb(sb)
        na = [(s, v) for s, f, v in oa if f == "normal"]
        nb = [(s, v) for s, f, v in ob if f == "normal"]
        rest = [o for o in oa + ob if o[1] != "normal"]
        if len(na) > 1:
            na = [self.join_list(na)]
        if len(nb) > 1:
            nb = [self.join_list(nb)]
        if na and nb:
            s, _ = self.merge_states(simp(c), na[0], nb[0], base)
            return rest + [(s, "normal", None)]
        for s, v in na + nb:
            rest.append((s, "normal", None))
        return rest

    def x_SwitchStmt(self, st, n):
        inner = list(n["inner"])
        body = inner.pop()
        try:
            if n.get("hasInit"):
                self.exec(st, inner.pop(0))
            if n.get("hasVar"):
                self.exec(st, inner.pop(0))
            v = self.rv(st, self.eval(st, inner[0]))
        except Dead as e:
            return [(st, "dead", e.args[0] if e.args else [])]
        if not isinstance(v, z3.ExprRef) or v.sort() == R:
            raise Unsupported("switch on " + type(v).__name__)
        stmts, entries, default = [], [], None
        for x in (body.get("inner", ()) if body["kind"] == "CompoundStmt" else [body]):
            while x["kind"] in ("CaseStmt", "DefaultStmt"):
                if x["kind"] == "DefaultStmt":
                    default = len(stmts)
                    x = x["inner"][-1]
                    continue
                if len(x["inner"]) != 2:
                    raise Unsupported("case range")
                k = self.rv(st, self.eval(st, x["inner"][0]))
                entries.append((k, len(stmts)))
                x = x["inner"][1]
            stmts.append(x)

        def start(s, i):
            if i is None:
                return [(s, "normal", None)]
            return [(o, "normal" if f == "break" else f, r)
                    for o, f, r in self.seq(s, stmts[i:])]
        groups = {}
        for k, i in entries:
            groups.setdefault(i, []).append(simp(v == k) if v.sort() == k.sort()
                                            else simp(self.as_int(v) == self.as_int(k)))
        order = sorted(groups)

        def go(s, q):
            if q == len(order):
                return start(s, default)
            return self.fork(s, simp(z3.Or(*groups[order[q]])),
                             lambda t: start(t, order[q]), lambda t: go(t, q + 1))
        return go(st, 0)

    @staticmethod
    def as_int(v):
        return z3.If(v, ONE, ZERO) if v.sort() == B else v

    def x_DoStmt(self, st, n):
        body, cond = n["inner"][0], n["inner"][1]

        def fc(s):
            return self.as_bool(self.rv(s, self.eval(s, cond)))
        outs, norm = [], []
        for s, f, v in self.exec(st, body):
            if f in ("normal", "continue"):
                norm.append((s, None))
            else:
                outs.append((s, "normal" if f == "break" else f, v))
        if norm:
            s = norm[0][0] if len(norm) == 1 else self.join_list(norm)[0]
            outs.extend(self.loop(s, fc, body, lambda s: None))
        return outs

    def as_bool(self, v):
        if isinstance(v, z3.ExprRef):
            if v.sort() == B:
                return v
            return simp(v != 0)
        raise Unsupported("condition of type %s" % type(v).__name__)

    # ------------------------------------------------------------------ loops
    def x_ForStmt(self, st, n):
        init, condvar, cond, inc, body = (n["inner"] + [None] * 5)[:5]
        outs = []
        if init:
            r = self.exec(st, init)
            st = r[0][0]
            if r[0][1] != "normal":
                return r

        def fc(s):
            if not cond:
                return TRUE
            return self.as_bool(self.rv(s, self.eval(s, cond)))

        def fi(s):
            if inc:
                self.eval(s, inc)
        return self.loop(st, fc, body, fi)

    def x_WhileStmt(self, st, n):
        inner = n["inner"]
        cond, body = inner[-2], inner[-1]

        def fc(s):
            return self.as_bool(self.rv(s, self.eval(s, cond)))
        return self.loop(st, fc, body, lambda s: None)

    def x_CXXForRangeStmt(self, st, n):
        inner = n["inner"]
        # init, range, begin, end, cond, inc, var, body
        xs = list(inner)
        body = xs[-1]
        var = xs[-2]
        inc = xs[-3]
        cond = xs[-4]
        v = self.view_range(st, xs[:-4])
        if v is not None:
            return self.walk_view(st, v, xs[:-4], var, body)
        for x in xs[:-4]:
            if x:
                r = self.exec(st, x)
                if r[0][1] != "normal":
                    return r
                st = r[0][0]

        whole = self.composite_range(st, xs[:-4])
        if whole is not None:
            return self.piecewise(st, whole, var, body)
        few = self.composite_range(st, xs[:-4], listed)
        if few is not None:
            return self.unroll(st, few, xs[:-4], var, body)

        def fc(s):
            return self.as_bool(self.rv(s, self.eval(s, cond)))

        def fi(s):
            self.eval(s, inc)

        def fb(s):
            r = self.exec(s, var)
            outs = []
            for (s2, fl, v) in r:
                if fl != "normal":
                    outs.append((s2, fl, v))
                else:
                    outs.extend(self.exec(s2, body))
            return outs
        return self.loop(st, fc, fb, fi)

    VIEWS = ("iota_view", "reverse_view", "drop_view", "take_view")

    def view_range(self, st, heads):
        """View of the range a range-for walks when it is a view; else None"""
        for x in heads:
            for d in (x or {}).get("inner", ()):
                if d.get("kind") == "VarDecl" and d.get("name", "").startswith("__range"):
                    i = self.init_of(d)
                    if i is None or self.prog.ty(i).noref().name not in self.VIEWS:
                        return None
                    for y in heads[:heads.index(x)]:
                        if y:
                            raise Unsupported("initialiser before a view")
                    return self.view(st, i)
        return None

    def view(self, st, n):
        """-> (cell of the sequence, first, end, reversed)"""
        while n["kind"] in ("ImplicitCastExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "ParenExpr",
                            "CXXBindTemporaryExpr", "CXXFunctionalCastExpr", "CXXConstructExpr") and \
                self.prog.ty(n).noref().name in self.VIEWS and len(n.get("inner", ())) == 1:
            n = n["inner"][0]
        if self.prog.ty(n).noref().name not in self.VIEWS:
            r = self.eval(st, n)
            v = self.rv(st, r)
            if isinstance(r, Ref) and isinstance(v, Ref):
                r, v = v, self.load(st, v)
            if not isinstance(v, Vec):
                raise Unsupported("view of " + type(v).__name__)
            if not isinstance(r, Ref):
                r = self.new_cell(st, v, "viewed")
            return r, ZERO, v.size(), False
        if n["kind"] != "CXXOperatorCallExpr":
            raise Unsupported("view " + n["kind"])
        op = self.callee(st, n["inner"][0]).get("referencedDecl", {}).get("name")
        a = n["inner"][1:]
        op = (op or "").removeprefix("operator")
        if op == "|":
            name, extra = self.adaptor(a[1])
            return self.adapt(st, name, self.view(st, a[0]), extra)
        name, none = self.adaptor(a[0])
        if op != "()" or none:
            raise Unsupported("view " + str(op))
        if name == "iota":
            if len(a) != 3:
                raise Unsupported("unbounded iota")
            et = T.parse("unsigned long")
            lo = self.val(st, a[1])
            hi = self.val(st, a[2])
            if self.prog.ty(a[1]).noref().name != self.prog.ty(a[2]).noref().name:
                raise Unsupported("iota of two types")
            self.ob(st, "iota ends after its start", lo <= hi)
            J = fresh_int("j")
            k = simp(hi - lo)
            return self.new_cell(st, Vec(et, (V.Sym(k, J, simp(lo + J)),)), "iota"), ZERO, k, False
        return self.adapt(st, name, self.view(st, a[1]), a[2:])

    def adaptor(self, n):
        """(name, arguments) of a range adaptor"""
        while n["kind"] in ("ImplicitCastExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ParenExpr"):
            n = n["inner"][0]
        if n["kind"] == "DeclRefExpr":
            nm = n["referencedDecl"].get("name")
            if nm in ("iota", "reverse", "drop", "take", "all"):
                return nm, []
        elif n["kind"] == "CXXOperatorCallExpr":
            nm, e = self.adaptor(n["inner"][1])
            if not e:
                return nm, n["inner"][2:]
        raise Unsupported("range adaptor " + n["kind"])

    def adapt(self, st, name, v, args):
        ref, lo, hi, rev = v
        if name == "all" and not args:
            return v
        if name == "reverse" and not args:
            return ref, lo, hi, not rev
        if name in ("drop", "take") and len(args) == 1:
            k = self.val(st, args[0])
            self.ob(st, "%s by a count" % name, k >= 0)
            short = simp(hi - lo < k)
            if P.check(list(st.pc), Not(short), 2).ok:
                cut = simp(hi - k if rev else lo + k)
            else:
                cut = simp(ite(short, lo, hi - k)) if rev else simp(ite(short, hi, lo + k))
            if (name == "drop") != rev:
                return ref, cut, hi, rev
            return ref, lo, cut, rev
        raise Unsupported("range adaptor " + name)

    def walk_view(self, st, view, heads, var, body):
        ref, lo, hi, rev = view
        begin = None
        for x in heads:
            for d in (x or {}).get("inner", ()):
                if d.get("kind") == "VarDecl" and d.get("name", "").startswith("__begin"):
                    begin = d["id"]
        cnt = self.new_cell(st, ZERO, "at")
        n = simp(hi - lo)

        def fb(s):
            i = self.load(s, cnt)
            s.env[begin] = self.new_cell(s, Iter(ref, simp(hi - 1 - i if rev else lo + i)), "it")
            outs = []
            for s2, fl, v in self.exec(s, var):
                outs.extend(self.exec(s2, body) if fl == "normal" else [(s2, fl, v)])
            return outs
        return self.loop(st, lambda s: simp(self.load(s, cnt) < n), fb,
                         lambda s: self.store(s, cnt, simp(self.load(s, cnt) + 1)))

    def unroll(self, st, few, heads, var, body):
        """walk a list of known length (pointers, functions) one by one"""
        ref, vec = few
        begin = next(d["id"] for x in heads for d in (x or {}).get("inner", ())
                     if d.get("kind") == "VarDecl" and d.get("name", "").startswith("__begin"))
        live, outs = [st], []
        for i in range(len(vec.pieces)):
            nxt = []
            for s in live:
                s.env[begin] = self.new_cell(s, Iter(ref, lit(i)), "it")
                stack0 = s.stack
                s.stack = stack0 + ("#%d" % i,)
                for s1, fl, v in self.exec(s, var):
                    rs = self.exec(s1, body) if fl == "normal" else [(s1, fl, v)]
                    for s2, fl2, v2 in rs:
                        s2.stack = stack0
                        if fl2 in ("normal", "continue"):
                            nxt.append(s2)
                        elif fl2 == "break":
                            outs.append((s2, "normal", None))
                        else:
                            outs.append((s2, fl2, v2))
            live = nxt
        return [(s, "normal", None) for s in live] + outs

    def composite_range(self, st, heads, kind=None):
        """(cell, sequence) when a whole vector whose elements were appended
        under conditions is walked; None otherwise"""
        its = []
        for x in heads[-2:]:
            for d in (x or {}).get("inner", ()):
                if d.get("kind") == "VarDecl" and d.get("name", "").startswith(("__begin", "__end")):
                    r = st.env.get(d["id"])
                    v = self.load(st, r) if isinstance(r, Ref) else r
                    its.append(v)
        if len(its) != 2 or not all(isinstance(i, Iter) and isinstance(i.ref, Ref) for i in its):
            return None
        a, b = its
        if not V.same(a.ref, b.ref) or not V.is_int_const(simp(a.idx), 0):
            return None
        v = self.load(st, a.ref)
        if not isinstance(v, Vec) or not simp(b.idx).eq(simp(v.size())) or not (kind or composite)(v):
            return None
        return a.ref, v

    def piecewise(self, st, whole, var, body):
        """walk a concatenation piece by piece; the elements and the vector
        are left unchanged by the body (checked)"""
        ref, vec = whole
        d = next((x for x in var.get("inner", ()) if x.get("kind") == "VarDecl"), None)
        if d is None:
            raise Unsupported("structured binding over a conditional sequence")

        def one(s, v):
            c = self.new_cell(s, v, d.get("name", "v"))
            s.env[d["id"]] = c
            outs = []
            for s2, fl, x in self.exec(s, body):
                if fl in ("normal", "continue"):
                    if not V.same(self.load(s2, c), v) or not V.same(self.load(s2, ref), vec):
                        raise Unsupported("a walked sequence is modified")
                outs.append((s2, fl, x))
            return outs

        def counted(s, n, each):
            cnt = self.new_cell(s, ZERO, "at")
            return self.loop(s, lambda q: simp(self.load(q, cnt) < n), lambda q: each(q, self.load(q, cnt)),
                             lambda q: self.store(q, cnt, simp(self.load(q, cnt) + 1)))

        def seq(s, pieces):
            live, outs = [s], []
            for p in pieces:
                nxt = []
                for q in live:
                    for s2, fl, x in piece(q, p):
                        if fl in ("normal", "continue"):
                            nxt.append(s2)
                        elif fl == "break":
                            raise Unsupported("break out of a conditional sequence")
                        else:
                            outs.append((s2, fl, x))
                live = nxt
            return [(q, "normal", None) for q in live] + outs

        def piece(s, p):
            if isinstance(p, V.One):
                return one(s, p.v)
            if isinstance(p, V.Sym):
                return counted(s, p.n, lambda q, i: one(q, p.at(i)))
            if isinstance(p, V.Flat):
                return counted(s, p.k, lambda q, i: seq(q, V.subst(p.inner, [(p.J, i)]).pieces))
            if isinstance(p, V.IteP):
                return self.fork(s, p.c, lambda q: piece_or_vec(q, p.a), lambda q: piece_or_vec(q, p.b))
            raise Unsupported("walking a " + type(p).__name__)

        def piece_or_vec(s, p):
            return seq(s, p.pieces) if isinstance(p, Vec) else piece(s, p)
        return seq(st, vec.pieces)

    def loop(self, st, fc, body, fi):
        import loops
        fb = body if callable(body) else (lambda s: self.exec(s, body))
        return loops.run(self, st, fc, fb, fi)

    # ------------------------------------------------------------ expressions
    def eval(self, st, n):
        self.cur = st
        m = getattr(self, "e_" + n["kind"], None)
        if m is None:
            raise Unsupported("expression " + n["kind"])
        return m(st, n)

    def val(self, st, n):
        x = self.eval(st, n)
        if isinstance(x, Ref) and n.get("valueCategory") == "prvalue" and self.prog.ty(n).ptr:
            return x        # a pointer, not what it points to
        return self.rv(st, x)

    def _pass(self, st, n):
        return self.eval(st, n["inner"][0])

    e_ParenExpr = _pass
    e_ExprWithCleanups = _pass
    e_CXXBindTemporaryExpr = _pass

    def e_ConstantExpr(self, st, n):
        v = n.get("value")
        if v in ("true", "false"):
            return TRUE if v == "true" else FALSE
        if isinstance(v, str) and v.lstrip("-").isdigit() and T.is_int(self.prog.ty(n)):
            return lit(int(v))
        return self.eval(st, n["inner"][0])
    e_CXXRewrittenBinaryOperator = _pass
    e_FullExpr = _pass

    def e_SubstNonTypeTemplateParmExpr(self, st, n):
        xs = [x for x in n["inner"] if not x.get("kind", "").endswith("Decl")]
        return self.eval(st, xs[-1])

    def e_MaterializeTemporaryExpr(self, st, n):
        v = self.eval(st, n["inner"][0])
        if isinstance(v, Ref) and n["inner"][0].get("valueCategory") != "prvalue":
            return v
        if isinstance(v, Ref):
            v = self.load(st, v)
        ty = self.prog.ty(n)
        v = self.convert(st, v, self.prog.ty(n["inner"][0]), ty) if isinstance(v, z3.ExprRef) else v
        return self.new_cell(st, v, "tmp")

    def cast(self, st, n):
        ck = n.get("castKind")
        e = n["inner"][0]
        if ck == "LValueToRValue":
            v = self.eval(st, e)
            return self.load(st, v) if isinstance(v, Ref) else v
        if ck in ("NoOp", "FunctionToPointerDecay", "BuiltinFnToFnPtr", "ArrayToPointerDecay",
                  "ConstructorConversion", "UserDefinedConversion",
                  "UncheckedDerivedToBase", "DerivedToBase", "Dependent"):
            return self.eval(st, e)
        if ck == "ToVoid":
            self.eval(st, e)
            return UNIT
        if ck == "NullToPointer":
            return Opaque("nullptr")
        v = self.val(st, e)
        to = self.prog.ty(n)
        if ck in ("IntegralCast", "IntegralToFloating", "FloatingToIntegral",
                  "IntegralToBoolean", "FloatingToBoolean", "FloatingCast",
                  "BooleanToSignedIntegral"):
            if ck == "FloatingToIntegral":
                t = self.trunc_int(v)
                lo, hi = T.INTS[to.name]
                self.ob(st, "float to integer conversion in range", And(t >= lo, t <= hi))
                return simp(t)
            if isinstance(v, z3.ExprRef) and v.sort() == B and ck in ("IntegralCast", "IntegralToFloating"):
                v = ite(v, ONE, ZERO)
                if ck == "IntegralToFloating":
                    v = z3.ToReal(v)
                return simp(v)
            if isinstance(v, Opaque):
                if v.key == "enum":
                    return v.args[0]
                raise Unsupported("cast of opaque value " + str(v.key))
            return self.convert(st, v, self.prog.ty(e), to)
        raise Unsupported("cast " + str(ck))

    e_ImplicitCastExpr = cast
    e_CXXStaticCastExpr = cast
    e_CXXFunctionalCastExpr = cast
    e_CStyleCastExpr = cast
    e_CXXConstCastExpr = cast

    def e_IntegerLiteral(self, st, n):
        return lit(int(n["value"]))

    def e_FloatingLiteral(self, st, n):
        v = real_of_float(n["value"])
        return round32(v) if self.prog.ty(n).name == "float" else v

    def e_CXXBoolLiteralExpr(self, st, n):
        return TRUE if n["value"] else FALSE

    def e_StringLiteral(self, st, n):
        return Opaque("str", (n.get("value", ""),))

    def e_CharacterLiteral(self, st, n):
        return lit(int(n["value"]))

    def e_PredefinedExpr(self, st, n):
        return Opaque("fname")

    def e_CXXNullPtrLiteralExpr(self, st, n):
        return Opaque("nullptr")

    def e_SourceLocExpr(self, st, n):
        return Opaque("loc")

    def e_CXXThisExpr(self, st, n):
        if st.this is None:
            raise Unsupported("this")
        return st.this

    def e_TypeTraitExpr(self, st, n):
        return TRUE if n.get("value", True) else FALSE

    def e_ConceptSpecializationExpr(self, st, n):
        raise Unsupported("concept")

    def e_DeclRefExpr(self, st, n):
        d = n["referencedDecl"]
        i = d["id"]
        if i in st.env:
            return st.env[i]
        if i in self.prog.defn:
            return FuncRef(self.prog.defn[i])
        k = d["kind"]
        nm = d.get("name", "")
        if k in FUNC_KINDS:
            return FuncRef(d)
        if k == "EnumConstantDecl":
            if i in self.prog.enums:
                return lit(self.prog.enums[i])
            return self.enum_const(nm, d)
        if k in ("VarDecl", "VarTemplateSpecializationDecl"):
            if nm in ("pi", "pi_v"):
                return self.new_cell(st, PI_VAL, "pi")
            if nm == "nullopt":
                return Opaque("nullopt")
            if nm in ("inv_pi", "inv_pi_v"):
                return self.new_cell(st, 1 / PI_VAL, "pi")
            node = self.prog.by_id.get(i)
            if node is not None:
                init = self.init_of(node)
                if init is not None:
                    ty = self.prog.ty(node)
                    const = (node["type"]["qualType"].startswith("const") or
                             node.get("constexpr"))
                    key = "global:" + i
                    if key in st.cells:
                        return Ref(key)
                    if const:
                        v = self.convert(st, self.val(st, init), self.prog.ty(init), ty)
                    else:
                        v = self.fresh(ty, "global_" + nm)
                    st.cells[key] = self.lazy0[key] = v
                    return Ref(key)
            # init-captured or structured variables referenced by an unknown id
            cap = st.flags.get("$cap:" + nm)
            if cap is not None:
                return cap
        raise Unsupported("reference to %s %s" % (k, nm))

    ENUMS = {"kSuccess": 0, "kSolvedToAcceptableTolerance": 1,
             "kCallbackRequestedStop": 2, "kTooFewDOFs": -1,
             "kLocallyInfeasible": -2, "kFeasibilityRestorationFailed": -3,
             "kNonfiniteInitialCostOrConstraints": -4,
             "kDivergingIterates": -5, "kMaxIterationsExceeded": -6,
             "kTimeout": -7}

    def enum_const(self, nm, d):
        if nm in self.ENUMS:
            return lit(self.ENUMS[nm])
        return Opaque("enum:" + nm)

    def e_MemberExpr(self, st, n):
        b = self.eval(st, n["inner"][0])
        nm = n.get("name", "")
        if not isinstance(b, Ref):
            b = self.new_cell(st, b, "tmp")
        md = self.prog.by_id.get(n.get("referencedMemberDecl"))
        if md is not None and md["kind"] in FUNC_KINDS:
            return FuncRef(md, b)
        if md is not None and md["kind"] == "VarDecl":
            return self.e_DeclRefExpr(st, {"referencedDecl": md})
        if n.get("isArrow"):
            v = None
            if b.cell in st.cells:
                v = self.load(st, b)
            if isinstance(v, Ref):      # variable holding a pointer
                b = v
            elif isinstance(v, Iter):
                b = v.ref.index(v.idx)
        return b.field(nm)

    # --- operators
    def e_UnaryOperator(self, st, n):
        op = n["opcode"]
        e = n["inner"][0]
        if op in ("++", "--"):
            r = self.eval(st, e)
            v = self.load(st, r)
            ty = self.prog.ty(e)
            if isinstance(v, z3.ExprRef):
                d = 1 if op == "++" else -1
                if v.sort() == R:
                    nv = simp(v + d)
                else:
                    nv = self.wrap(st, v + d, ty, "increment")
            elif isinstance(v, Iter):
                nv = Iter(v.ref, simp(v.idx + (1 if op == "++" else -1)))
            else:
                raise Unsupported("++ on %s" % type(v).__name__)
            self.store(st, r, nv)
            return v if n.get("isPostfix") else r
        if op == "&":
            r = self.eval(st, e)
            return r
        if op == "*":
            v = self.eval(st, e)
            if isinstance(v, Ref) and e.get("valueCategory") == "prvalue":
                w = st.cells.get(v.cell) if not v.path else None
                if isinstance(w, Ref):
                    return w
                return v
            v = self.rv(st, v)
            if isinstance(v, Ref):
                return v
            if isinstance(v, Iter):
                return v.ref.index(v.idx)
            raise Unsupported("dereference of %s" % type(v).__name__)
        v = self.val(st, e)
        if op == "-":
            if isinstance(v, SVar):
                return SVar(simp(-v.den))
            ty = self.prog.ty(n)
            if v.sort() == I:
                return self.wrap(st, -v, ty, "negation")
            return simp(-v)
        if op == "+":
            return v
        if op == "!":
            return Not(self.as_bool(v))
        if op == "~":
            ty = self.prog.ty(n)
            lo, hi = T.INTS[ty.name]
            return simp(hi - v) if lo == 0 else simp(-v - 1)
        raise Unsupported("unary " + op)

    def arith(self, st, op, a, b, ty):
        if isinstance(a, SVar) or isinstance(b, SVar):
            return self.svar_op(op, a, b)
        if not isinstance(a, z3.ExprRef) or not isinstance(b, z3.ExprRef):
            return self.opaque_op(op, a, b)
        if a.sort() == B:
            a = ite(a, ONE, ZERO)
        if b.sort() == B:
            b = ite(b, ONE, ZERO)
        if a.sort() == R or b.sort() == R:
            if a.sort() == I:
                a = z3.ToReal(a)
            if b.sort() == I:
                b = z3.ToReal(b)
            if op not in "+-*/":
                raise Unsupported("float " + op)
            r = simp(a + b if op == "+" else a - b if op == "-" else a * b if op == "*" else a / b)
            return round32(r) if ty is not None and ty.name == "float" else r
        if op == "+":
            return self.wrap(st, a + b, ty, "+")
        if op == "-":
            return self.wrap(st, a - b, ty, "-")
        if op == "*":
            return self.wrap(st, a * b, ty, "*")
        if op in ("/", "%"):
            self.ob(st, "no division by zero", b != 0)
            lo, hi = T.INTS[ty.name]
            if lo == 0:
                return simp(a / b) if op == "/" else simp(a % b)
            q = ite(a >= 0, ite(b > 0, a / b, -(a / (-b))),
                    ite(b > 0, -((-a) / b), (-a) / (-b)))
            return simp(q) if op == "/" else simp(a - q * b)
        if op in ("<<", ">>") and z3.is_int_value(b):
            k = 1 << b.as_long()
            if op == "<<":
                return self.wrap(st, a * k, ty, "<<")
            return simp(a / k)
        raise Unsupported("integer " + op)

    def opaque_op(self, op, a, b):
        return Opaque("op" + op, (a, b))

    def svar_op(self, op, a, b):
        x = a.den if isinstance(a, SVar) else a
        y = b.den if isinstance(b, SVar) else b
        if not isinstance(x, z3.ExprRef) or not isinstance(y, z3.ExprRef):
            raise Unsupported("Variable operator on %s, %s" % (type(a).__name__, type(b).__name__))
        if x.sort() == I:
            x = z3.ToReal(x)
        if y.sort() == I:
            y = z3.ToReal(y)
        if op == "+":
            return SVar(simp(x + y))
        if op == "-":
            return SVar(simp(x - y))
        if op == "*":
            return SVar(simp(x * y))
        if op == "/":
            return SVar(simp(x / y))
        if op in ("==", "<=", ">=", "<", ">"):
            if op == "==":
                return ConsV("eq", [("c", TRUE, "eq", simp(x - y))])
            if op in (">=", ">"):
                return ConsV("ineq", [("c", TRUE, "ineq", simp(x - y))])
            return ConsV("ineq", [("c", TRUE, "ineq", simp(y - x))])
        raise Unsupported("Variable operator " + op)

    def compare(self, st, op, a, b):
        if isinstance(a, Iter) and isinstance(b, Iter):
            if not same(a.ref, b.ref):
                raise Unsupported("comparison of iterators of different containers")
            a, b = a.idx, b.idx
        if isinstance(a, Ref) and isinstance(b, Ref):
            eq = same(a, b)
            return z3.BoolVal(eq if op == "==" else not eq)
        if not isinstance(a, z3.ExprRef) or not isinstance(b, z3.ExprRef):
            return self.opaque_bool(op, a, b)
        if a.sort() == B and b.sort() == B:
            return simp(a == b) if op == "==" else simp(a != b)
        if a.sort() == B:
            a = ite(a, ONE, ZERO)
        if b.sort() == B:
            b = ite(b, ONE, ZERO)
        if a.sort() == R and b.sort() == I:
            b = z3.ToReal(b)
        if b.sort() == R and a.sort() == I:
            a = z3.ToReal(a)
        return simp({"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b,
                     ">": a > b, ">=": a >= b}[op])

    def opaque_bool(self, op, a, b):
        nm = "opq_%s_%s" % (op, V.uid("b"))
        key = ("ob", op, repr(a), repr(b))
        nm = self.statics.setdefault(key, nm)
        return z3.Bool(nm)

    def e_BinaryOperator(self, st, n):
        op = n["opcode"]
        l, r = n["inner"]
        if op == "=":
            rv = self.val(st, r)
            ref = self.eval(st, l)
            ty = self.prog.ty(l)
            self.store(st, ref, self.convert(st, rv, self.prog.ty(r), ty) if not ty.ptr else rv)
            return ref
        if op == ",":
            self.eval(st, l)
            return self.eval(st, r)
        if op in ("&&", "||"):
            a = self.as_bool(self.val(st, l))
            if op == "&&":
                return self.branch(st, a, lambda s: self.as_bool(self.val(s, r)), lambda s: FALSE)
            return self.branch(st, a, lambda s: TRUE, lambda s: self.as_bool(self.val(s, r)))
        a = self.val(st, l)
        b = self.val(st, r)
        if op in ("==", "!=", "<", "<=", ">", ">="):
            return self.compare(st, op, a, b)
        return self.arith(st, op, a, b, self.prog.ty(n))

    def e_CompoundAssignOperator(self, st, n):
        op = n["opcode"][:-1]
        l, r = n["inner"]
        b = self.val(st, r)
        ref = self.eval(st, l)
        a = self.load(st, ref)
        ty = self.prog.ty(l)
        ct = n.get("computeResultType", {})
        cty = self.prog.tystr(ct.get("desugaredQualType") or ct.get("qualType", ty.raw)) if ct else ty
        if T.is_float(cty):
            a = self.convert(st, a, ty, cty)
            b = self.convert(st, b, ty, cty)
        v = self.arith(st, op, a, b, cty)
        self.store(st, ref, self.convert(st, v, cty, ty))
        return ref

    def e_ConditionalOperator(self, st, n):
        c, a, b = n["inner"]
        cv = self.as_bool(self.val(st, c))
        gl = n.get("valueCategory") != "prvalue"

        def f(x):
            def g(s):
                v = self.eval(s, x)
                return v if gl else (self.rv(s, v) if not self.prog.ty(n).ptr else v)
            return g
        if gl:
            d = self.decide_in(st, simp(cv))
            if d is None:
                # references: try to merge, else materialise a copy
                sa, sb = st.copy(), st.copy()
                sa.pc.append(simp(cv))
                sb.pc.append(Not(cv))
                self.cur = sa
                ra = self.eval(sa, a)
                self.cur = sb
                rb = self.eval(sb, b)
                try:
                    s, v = self.merge_states(simp(cv), (sa, ra), (sb, rb), list(st.pc))
                    st.take(s)
                    self.cur = st
                    return v
                except Unsupported:
                    s, v = self.merge_states(simp(cv), (sa, self.rv(sa, ra)),
                                             (sb, self.rv(sb, rb)), list(st.pc))
                    st.take(s)
                    self.cur = st
                    return self.new_cell(st, v, "cond")
        return self.branch(st, cv, f(a), f(b))

    # --- construction
    def e_InitListExpr(self, st, n):
        ty = self.prog.ty(n)
        xs = [x for x in n.get("inner", ()) if x]
        if "array_filler" in n:
            xs = [x for x in n["array_filler"] if x.get("kind") != "ImplicitValueInitExpr"]
        if ty.arr is not None or "[" in ty.raw:
            el = []
            for x in xs:
                el.append(One(self.val(st, x)))
            return Vec(ty.name, el)
        if T.is_float(ty) or T.is_int(ty) or T.is_bool(ty):
            if not xs:
                return self.default(st, ty)
            return self.convert(st, self.val(st, xs[0]), self.prog.ty(xs[0]), ty)
        rec = self.record_of(ty)
        if rec is not None:
            if len(xs) == 1 and len(rec.fields) != 1 and \
                    self.prog.ty(xs[0]).canon() == ty.canon():
                return self.val(st, xs[0])
            f = {}
            for i, nm in enumerate(rec.fields):
                fty = self.field_ty(rec, nm)
                if i < len(xs):
                    f[nm] = self.convert(st, self.val(st, xs[i]), self.prog.ty(xs[i]), fty)
                else:
                    init = rec.finit.get(nm)
                    if init is not None:
                        f[nm] = self.convert(st, self.val(st, init), self.prog.ty(init), fty)
                    else:
                        f[nm] = self.default(st, fty)
            return Struct(ty.canon(), f)
        if ty.name == "array":
            if len(xs) == 1 and xs[0]["kind"] == "InitListExpr":
                return self.eval(st, xs[0])
        if ty.name == "SolverConfig":
            # a configuration aggregate of the optimiser: fields by position
            return Struct("SolverConfig", {
                CONFIG[i]: Opaque("defaultinit")
                if x.get("kind") == "CXXDefaultInitExpr" and not x.get("inner")
                else self.val(st, x) for i, x in enumerate(xs)})
        if len(xs) == 1:
            return self.val(st, xs[0])
        raise Unsupported("initialiser list for " + ty.canon())

    def e_ImplicitValueInitExpr(self, st, n):
        return self.default(st, self.prog.ty(n))

    def e_CXXScalarValueInitExpr(self, st, n):
        return self.default(st, self.prog.ty(n))

    def e_CXXStdInitializerListExpr(self, st, n):
        v = self.rv(st, self.eval(st, n["inner"][0]))
        if isinstance(v, Vec):
            return v
        raise Unsupported("initializer_list")

    def e_CXXDefaultArgExpr(self, st, n):
        if n.get("inner"):
            return self.eval(st, n["inner"][0])
        return Opaque("defaultarg")

    def e_CXXDefaultInitExpr(self, st, n):
        if n.get("inner"):
            return self.eval(st, n["inner"][0])
        raise Unsupported("default member initialiser")

    def e_CXXConstructExpr(self, st, n):
        ty = self.prog.ty(n)
        sig = n.get("ctorType", {}).get("qualType", "")
        args = [x for x in n.get("inner", ()) if x.get("kind") != "CXXDefaultArgExpr"
                or self.record_of(ty) is not None]
        vals = []
        for a in args:
            if a["kind"] == "CXXDefaultArgExpr" and not a.get("inner"):
                vals.append((None, None))
            else:
                vals.append((self.eval(st, a), self.prog.ty(a)))
        return self.construct(st, ty, vals, sig)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def copyish(self, sig, ty):
        s = sig.replace("const ", "").strip()
        i = s.find("(")
        arg = s[i + 1:].split(")")[0].strip()
        if "," in _strip_tmpl(arg):
            return False
        a = T.parse(arg, self.prog.aliases)
        return a.ref and a.name == ty.name

    def construct(self, st, ty, vals, sig=""):
        import lib
        rec = self.record_of(ty)
        if rec is None or ty.name in lib.OPAQUE_RECORDS:
            return lib.construct(self, st, ty, vals, sig)
        cands = rec.ctors
        c = None
        if sig:
            for x in cands:
                if x["type"]["qualType"] == sig:
                    c = x
                    break
        if c is None and sig and self.copyish(sig, ty) and len(vals) == 1:
            return self.rv(st, vals[0][0])
        if c is None:
            c = self.resolve(cands, vals, ty)
        if c is None:
            if not vals:
                return self.default(st, ty)
            if len(vals) == 1:
                v = self.rv(st, vals[0][0])
                if isinstance(v, Struct) and v.ty == ty.canon():
                    return v
            if len(vals) == len(rec.fields) and not any(
                    not x.get("isImplicit") for x in rec.ctors):
                return Struct(ty.canon(), {f: self.convert(st, self.rv(st, v), t, self.field_ty(rec, f))
                                           for f, (v, t) in zip(rec.fields, vals)})
            raise Unsupported("constructor of %s with %d arguments" % (ty.canon(), len(vals)))
        return self.construct_with(st, rec, ty, c, [v for v, _ in vals if v is not None])

    def resolve(self, cands, vals, ty):
        best = None
        bs = -1
        for c in cands:
            ps = params_of(c)
            need = [p for p in ps if "init" not in p]
            if not (len(need) <= len(vals) <= len(ps)):
                continue
            sc = 0
            ok = True
            for p, (v, vt) in zip(ps, vals):
                pt = self.prog.ty(p)
                x = v
                if vt is None:
                    continue
                if pt.canon() == vt.canon():
                    sc += 3
                elif (T.is_float(pt) or T.is_int(pt) or pt.name == "Variable") and \
                        (T.is_float(vt) or T.is_int(vt)):
                    sc += 1
                elif pt.name == "Rotation2" and T.is_float(vt):
                    sc += 1
                elif pt.name == "Variable" or vt.name == "Variable":
                    ok = False
                elif self.record_of(pt) is not None and self.record_of(vt) is not None:
                    ok = False
                else:
                    ok = False
            if ok and sc > bs and (self.body(c) is not None or c.get("isImplicit") or c.get("explicitlyDefaulted")):
                best, bs = c, sc
        return best

    def construct_with(self, st, rec, ty, c, args):
        d = self.prog.defn.get(c["id"], c)
        b = body_of(d)
        q = self.qual(d)
        short = q[len("trajopt::"):] if q.startswith("trajopt::") else q
        ct = self.contracts.get(short)
        if ct is not None and short != self.func and q != self.func and \
                not (c.get("isImplicit") or c.get("explicitlyDefaulted")):
            r = ct(self, st, None, args, d)
            if r is not NotImplemented:
                self.used_contracts.add(short)
                return r
        if b is None:
            if len(args) == 1:
                return self.rv(st, args[0])     # implicit copy / move
            if not args:
                return self.agg_default(st, rec, ty)
            raise Unsupported("constructor without body: " + ty.canon())
        isimp = c.get("isImplicit") or c.get("explicitlyDefaulted")
        if isimp and len(args) == 1:
            return self.rv(st, args[0])
        this = self.new_cell(st, Struct(ty.canon(), {}), "obj")
        self.ctor_body(st, rec, ty, d, this, args)
        return self.load(st, this)

    def ctor_body(self, st, rec, ty, d, this, args):
        q = self.qual(d)
        self.inlined.add(q[len("trajopt::"):] if q.startswith("trajopt::") else q)
        env0, this0, stack0 = st.env, st.this, st.stack
        st.env = {}
        st.this = this
        st.stack = st.stack + (d["id"],)
        self.bind_params(st, d, args)
        inits = {}
        for x in d.get("inner", ()):
            if x.get("kind") == "CXXCtorInitializer":
                if "anyInit" in x:
                    inits[x["anyInit"]["name"]] = x
                elif "baseInit" in x:
                    continue
                else:
                    # delegating constructor
                    v = self.val(st, x["inner"][0])
                    self.store(st, this, v)
                    inits = None
                    break
        if inits is not None:
            for f in rec.fields:
                fty = self.field_ty(rec, f)
                x = inits.get(f)
                e = None
                if x is not None and x.get("inner"):
                    e = x["inner"][0]
                    if e.get("kind") == "CXXDefaultInitExpr" and not e.get("inner"):
                        e = rec.finit.get(f) or self.tmpl_finit(ty, f)
                else:
                    e = rec.finit.get(f) or self.tmpl_finit(ty, f)
                if e is not None:
                    a = self.eval(st, e)
                    if fty.ref:
                        raise Unsupported("reference member")
                    v = self.rv(st, a)
                    v = self.convert(st, v, self.prog.ty(e), fty)
                elif T.is_float(fty) or T.is_int(fty) or T.is_bool(fty):
                    v = self.fresh(fty, uid("uninit_" + f))
                else:
                    v = self.default(st, fty)
                self.store(st, this.field(f), v)
        outs = self.run_body(st, body_of(d))
        st2, _ = self.join(outs, d)
        st.take(st2)
        st.env, st.this, st.stack = env0, this0, stack0

    def implicit_member(self, st, f, this, args):
        nm = f.get("name", "")
        if nm == "operator=":
            self.store(st, this, self.rv(st, args[0]))
            return this
        if nm.startswith("~"):
            return UNIT
        if nm == "operator==":
            a, b = self.rv(st, args[0]), self.rv(st, args[1]) if len(args) > 1 else None
            raise Unsupported("defaulted ==")
        raise Unsupported("implicit member " + nm)

    # --- lambdas
    def e_LambdaExpr(self, st, n):
        rec = n["inner"][0]
        ops = []
        fields = []
        for x in rec.get("inner", ()):
            if x.get("kind") == "CXXMethodDecl" and x.get("name") == "operator()":
                ops.append(x)
            elif x.get("kind") == "FunctionTemplateDecl" and x.get("name") == "operator()":
                for y in x.get("inner", ()):
                    if y.get("kind") == "CXXMethodDecl":
                        ops.append(y)
            elif x.get("kind") == "FieldDecl":
                fields.append(x)
        caps = [x for x in n["inner"][1:] if x and x.get("kind") != "CompoundStmt"]
        # uses of captured entities in the bodies: by DeclRef to the outer ids
        env = {}
        this = None
        vals = []
        for f, e in zip(fields, caps):
            byref = self.prog.ty(f).ref
            v = self.eval(st, e)
            if e.get("kind") == "CXXThisExpr" or (not byref and _is_this(e)):
                this = v
                continue
            if not byref:
                if isinstance(v, Ref):
                    v = self.load(st, v)
                v = self.new_cell(st, v, "cap")
            elif not isinstance(v, Ref):
                v = self.new_cell(st, v, "cap")
            d = _captured_decl(e)
            vals.append((v, d, e))
        used = {}
        for o in ops:
            _declrefs(body_of(o) or {}, used)
        declared = set()
        for o in ops:
            _decls(o, declared)
        outer = [i for i in used if i not in declared and
                 used[i]["kind"] in ("VarDecl", "ParmVarDecl", "BindingDecl")
                 and i not in self.prog.defn]
        taken = set()
        rest = []
        for v, d, e in vals:
            if d is not None and d in used:
                env[d] = v
                taken.add(d)
            else:
                rest.append(v)
        # init-captures: remaining unknown ids in order of appearance
        unknown = [i for i in outer if i not in taken and i not in self.prog.by_id]
        unknown += [i for i in outer if i not in taken and i in self.prog.by_id and i not in st.env
                    and i not in unknown]
        for v, i in zip(rest, unknown):
            env[i] = v
        # what is not captured explicitly but visible (constants, statics)
        for i in outer:
            if i not in env and i in st.env:
                env[i] = st.env[i]
        if this is None and st.this is not None and _uses_this(ops):
            this = st.this
        return Closure(ops, env, this, n.get("id"))

    def call_closure(self, st, c, args, op=None):
        ops = [o for o in c.ops if body_of(o) is not None]
        if op is None:
            cands = [o for o in ops if len(params_of(o)) == len(args) and not _dependent(o)]
            if not cands:
                cands = [o for o in ops if len(params_of(o)) == len(args)]
            if len(cands) > 1:
                sc = []
                for o in cands:
                    s = 0
                    for p, a in zip(params_of(o), args):
                        v = self.rv(st, a)
                        pt = self.prog.ty(p)
                        if isinstance(v, Struct) and v.ty == pt.canon():
                            s += 1
                    sc.append(s)
                op = cands[sc.index(max(sc))]
            elif cands:
                op = cands[0]
            else:
                raise Unsupported("closure arity")
        env0 = st.env
        st.env = dict(env0)
        st.env.update(c.env)
        this = c.this
        try:
            v = self.call_op(st, op, this, args)
        finally:
            st.env = env0
        return v

    def call_op(self, st, op, this, args):
        env0, this0, stack0 = st.env, st.this, st.stack
        st.env = dict(env0)
        st.this = this
        st.stack = st.stack + (op["id"],)
        self.bind_params(st, op, args)
        outs = self.run_body(st, body_of(op))
        st2, val = self.join(outs, op)
        st.take(st2)
        st.env, st.this, st.stack = env0, this0, stack0
        return val

    def is_pointer(self, ty, k):
        """is member k of this pair or tuple a pointer (not a reference)?"""
        a = T.parse(ty, self.prog.aliases).args if isinstance(ty, str) else ()
        return k < len(a) and (a[k].ptr or a[k].name == "ptr") and not a[k].ref

    def functor(self, rec, st, args):
        """the operator() of an object that takes these arguments"""
        cands = []
        for f in self.prog.funcs:
            if f.get("name") != "operator()" or len(params_of(f)) != len(args) or _dependent(f):
                continue
            p = self.prog.parent.get(f["id"])
            while p is not None and p.get("kind") == "FunctionTemplateDecl":
                p = self.prog.parent.get(p.get("id"))
            if p is not rec.node:
                continue
            sc = 0
            for q, a in zip(params_of(f), args):
                v, t = self.rv(st, a), self.prog.ty(q)
                sc += isinstance(v, Struct) and v.ty == t.canon()
            cands.append((sc, f))
        if not cands:
            raise Unsupported("call operator")
        return max(cands, key=lambda x: x[0])[1]

    def invoke(self, st, fn, args):
        at = fn
        fn = self.rv(st, fn)
        if isinstance(fn, Struct):
            rec = self.prog.records.get(fn.ty)
            if rec is not None:
                this = at if isinstance(at, Ref) else self.new_cell(st, fn, "functor")
                return self.call(st, self.functor(rec, st, args), this, args)
        if isinstance(fn, Closure):
            return self.call_closure(st, fn, args)
        if isinstance(fn, FuncRef):
            return self.call(st, fn.node, fn.this, args)
        if isinstance(fn, FuncV):
            vals = [self.rv(st, a) for a in args]
            self.event(st, "call", (fn,) + tuple(vals))
            return UNIT
        raise Unsupported("call of %s" % type(fn).__name__)

    def event(self, st, name, args):
        t = st.cells.get("$trace")
        if t is None:
            t = Trace("trace")
        st.cells["$trace"] = t.add([("ev", TRUE, name, tuple(args))])

    # --- calls
    def callee(self, st, n):
        e = n
        while e["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            e = e["inner"][0]
        return e

    def e_CallExpr(self, st, n):
        stack0 = st.stack
        st.stack = stack0 + (n.get("id"),)
        try:
            return self.do_CallExpr(st, n)
        finally:
            st.stack = stack0

    def do_CallExpr(self, st, n):
        import lib
        c = self.callee(st, n["inner"][0])
        argn = n["inner"][1:]
        if c["kind"] == "DeclRefExpr":
            d = c["referencedDecl"]
            i = d["id"]
            if i in self.prog.defn or (i in self.prog.by_id and d["kind"] in FUNC_KINDS):
                args = [self.eval(st, a) for a in argn if a["kind"] != "CXXDefaultArgExpr" or a.get("inner")]
                f = self.prog.defn.get(i, self.prog.by_id.get(i))
                if self.trace_calls.get(self.qual(f)):
                    return self.trace_calls[self.qual(f)](self, st, None, args)
                return self.call(st, f, None, args)
            if d["kind"] in FUNC_KINDS:
                return lib.free_call(self, st, d.get("name", ""), n, argn)
        f = self.eval(st, n["inner"][0])
        args = [self.eval(st, a) for a in argn]
        return self.invoke(st, f, args)

    def class_name(self, mid):
        """the class a member (or member template) is declared in"""
        p = self.prog.parent.get(mid)
        if p is not None and p["kind"] == "FunctionTemplateDecl":
            p = self.prog.parent.get(p["id"])
        return (p or {}).get("name")

    def e_CXXMemberCallExpr(self, st, n):
        stack0 = st.stack
        st.stack = stack0 + (n.get("id"),)
        try:
            return self.do_CXXMemberCallExpr(st, n)
        finally:
            st.stack = stack0

    def do_CXXMemberCallExpr(self, st, n):
        import lib
        m = n["inner"][0]
        while m["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            m = m["inner"][0]
        argn = n["inner"][1:]
        if m["kind"] != "MemberExpr":
            raise Unsupported("member call through " + m["kind"])
        mid = m.get("referencedMemberDecl")
        md = self.prog.by_id.get(mid)
        if md is not None and md["kind"] in FUNC_KINDS:
            rec_par = self.prog.parent.get(mid)
            if not (rec_par and lib.opaque_record(self.class_name(mid))):
                b = self.eval(st, m["inner"][0])
                if not isinstance(b, Ref):
                    b = self.new_cell(st, b, "tmp")
                if m.get("isArrow"):
                    b = self.deref_ptr(st, b)
                args = [self.eval(st, a) for a in argn
                        if a["kind"] != "CXXDefaultArgExpr" or a.get("inner")]
                f = self.prog.defn.get(mid, md)
                tc = self.trace_calls.get(self.qual(f))
                if tc:
                    return tc(self, st, b, args)
                return self.call(st, f, b, args)
        b = self.eval(st, m["inner"][0])
        if m.get("isArrow") and isinstance(b, Ref):
            b = self.deref_ptr(st, b)
        return lib.member_call(self, st, m.get("name", ""), b,
                               self.prog.ty(m["inner"][0]), argn, n)

    def deref_ptr(self, st, b):
        v = st.cells.get(b.cell) if not b.path else None
        if isinstance(v, Ref):
            return v
        if b.path and b.cell in st.cells:
            try:
                v = self.load(st, b)
            except Unsupported:
                v = None
            if isinstance(v, Ref):
                return v
        return b

    def e_CXXOperatorCallExpr(self, st, n):
        stack0 = st.stack
        st.stack = stack0 + (n.get("id"),)
        try:
            return self.do_CXXOperatorCallExpr(st, n)
        finally:
            st.stack = stack0

    def do_CXXOperatorCallExpr(self, st, n):
        import lib
        c = self.callee(st, n["inner"][0])
        argn = n["inner"][1:]
        d = c.get("referencedDecl", {})
        i = d.get("id")
        if i in self.prog.by_id:
            md = self.prog.by_id[i]
            f = self.prog.defn.get(i, md)
            nm = md.get("name", "")
            if md["kind"] == "CXXMethodDecl" and md.get("name") == "operator()" and \
                    "lambda" in self.prog.ty(argn[0]).name:
                fn = self.eval(st, argn[0])
                c2 = self.rv(st, fn)
                args = [self.eval(st, a) for a in argn[1:]]
                if isinstance(c2, Closure):
                    op = None
                    for o in c2.ops:
                        if o["id"] == i:
                            op = o
                    return self.call_closure(st, c2, args, op)
            if md["kind"] == "CXXMethodDecl" and lib.opaque_record(self.class_name(i)):
                return lib.operator_call(self, st, nm, argn, n)
            if md["kind"] in ("CXXMethodDecl",):
                b = self.eval(st, argn[0])
                if not isinstance(b, Ref):
                    b = self.new_cell(st, b, "tmp")
                args = [self.eval(st, a) for a in argn[1:]]
                return self.call(st, f, b, args)
            args = [self.eval(st, a) for a in argn]
            return self.call(st, f, None, args)
        return lib.operator_call(self, st, d.get("name", ""), argn, n)

    def e_CXXThrowExpr(self, st, n):
        inner = n.get("inner")
        v = None
        if inner:
            v = self.val(st, inner[0])
        raise Dead([(list(st.pc), v)])

    def x_CXXThrowExpr(self, st, n):
        v = None
        if n.get("inner"):
            v = self.val(st, n["inner"][0])
        return [(st, "throw", v)]

    def e_UnaryExprOrTypeTraitExpr(self, st, n):
        raise Unsupported("sizeof")

    def e_ArraySubscriptExpr(self, st, n):
        b = self.eval(st, n["inner"][0])
        i = self.val(st, n["inner"][1])
        if isinstance(b, Ref):
            v = self.load(st, b)
            if isinstance(v, Vec):
                self.ob(st, "array index in bounds", And(i >= 0, i < v.size()))
                return b.index(simp(i))
        raise Unsupported("array subscript")


def _strip_tmpl(s):
    out = ""
    d = 0
    for ch in s:
        if ch in "<(":
            d += 1
        elif ch in ">)":
            d -= 1
        elif d == 0:
            out += ch
    return out


def _varies(e, st, settled):
    """the value may depend on this call's arguments or state"""
    if isinstance(e, list):
        return any(_varies(x, st, settled) for x in e)
    if not isinstance(e, dict):
        return False
    if e.get("kind") == "CXXThisExpr":
        return True
    if e.get("kind") == "DeclRefExpr":
        i = e.get("referencedDecl", {}).get("id")
        if i in st.env and i not in settled:
            return True
    return _varies(e.get("inner", []), st, settled)


def _calls_now(e):
    """the initializer is a call of now()"""
    while isinstance(e, dict) and e.get("kind") in ("ExprWithCleanups", "ImplicitCastExpr", "CXXConstructExpr",
                                                    "MaterializeTemporaryExpr", "ParenExpr") and e.get("inner"):
        e = e["inner"][0]
    if not isinstance(e, dict) or e.get("kind") != "CallExpr":
        return False
    c = e["inner"][0]
    while c.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
        c = c["inner"][0]
    return c.get("referencedDecl", {}).get("name") == "now"


def _is_this(e):
    while e and e.get("kind") in ("ImplicitCastExpr", "ParenExpr", "CXXConstructExpr") and e.get("inner"):
        e = e["inner"][0]
    return bool(e) and e.get("kind") == "CXXThisExpr"


def _captured_decl(e):
    while e and e.get("kind") in ("ImplicitCastExpr", "ParenExpr", "CXXConstructExpr",
                                  "ExprWithCleanups", "CXXBindTemporaryExpr",
                                  "MaterializeTemporaryExpr", "InitListExpr") and e.get("inner"):
        e = e["inner"][0]
    if e and e.get("kind") == "DeclRefExpr":
        return e["referencedDecl"]["id"]
    return None


def _declrefs(n, out):
    if not isinstance(n, dict):
        return
    if n.get("kind") == "DeclRefExpr":
        d = n.get("referencedDecl", {})
        out.setdefault(d.get("id"), d)
    for x in n.get("inner", ()):
        _declrefs(x, out)


def _decls(n, out):
    if not isinstance(n, dict):
        return
    if n.get("kind", "").endswith("Decl") and "id" in n:
        out.add(n["id"])
    for x in n.get("inner", ()):
        _decls(x, out)


def _uses_this(ops):
    st = [body_of(o) for o in ops]
    while st:
        x = st.pop()
        if not isinstance(x, dict):
            continue
        if x.get("kind") == "CXXThisExpr":
            return True
        st.extend(x.get("inner", ()))
    return False


def _dependent(o):
    for p in params_of(o):
        t = p.get("type", {}).get("qualType", "")
        if "auto" in t or "type-parameter" in t:
            return True
    return False
