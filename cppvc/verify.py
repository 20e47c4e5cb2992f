"""Contracts on the real functions: symbolic execution of the body from the
precondition, the postcondition as obligations, discharge with z3."""
import os
import pickle
import shutil
import time
import tempfile
import traceback
import z3

import front
import types_ as T
import values as V
import prove as P
from values import *
from exec import Executor, State, Obligation, Dead

REPO = os.environ.get("TRAJOPT_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

GEN_PRE = """
#include <trajopt/solution/SwerveSolution.hpp>
#include <trajopt/util/GenerateLinearInitialGuess.hpp>
namespace trajopt { inline auto vc_use_guess = &GenerateLinearInitialGuess<SwerveSolution>; }
"""

UNITS = {
    "core": ["trajopt/util/TrajoptUtil.hpp",
             "trajopt/util/Cancellation.hpp",
             "trajopt/solution/SwerveSolution.hpp",
             "trajopt/solution/DifferentialSolution.hpp",
             "trajopt/trajectory/HolonomicTrajectory.hpp"],
}


KNOWN = ("src/SwerveTrajectoryGenerator.cpp", "src/path/SwervePathBuilder.cpp",
         "src/util/Cancellation.cpp", "src/RustFFI.cpp")


def sources(wanted):
    """the wanted sources that exist, and any source file that was added (the
    build takes src/**.cpp)"""
    out = [s for s in wanted if os.path.exists(os.path.join(REPO, s))]
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        for f in sorted(fs):
            r = os.path.relpath(os.path.join(d, f), REPO)
            if f.endswith((".cpp", ".cc", ".cxx")) and r not in KNOWN and r not in out:
                out.append(r)
    return out


class Result:
    def __init__(self, func, name, ok, how, t, model=None, reason="", smt=None):
        self.func, self.name, self.ok, self.how, self.t = func, name, ok, how, t
        self.model, self.reason, self.smt = model, reason, smt


class Session:
    """One translation unit under verification."""

    def __init__(self, includes=(), sources=(), filt="trajopt", pre="", generate=None):
        self.includes = includes
        self.sources = sources
        self.obs = []
        self.unsup = []        # (contract, reason)
        self.under_contract = []
        self.inlined = set()
        self.assumed = set()
        self.notes = set()
        self.vacuity = []
        t = time.time()
        d = tempfile.mkdtemp(prefix="cppvc")
        tu = os.path.join(d, "tu.cpp")
        with open(tu, "w") as f:
            f.write(pre)
            for i in includes:
                f.write("#include <%s>\n" % i)
            for s in globals()["sources"](sources):
                f.write('#include "%s"\n' % os.path.join(REPO, s))
        try:
            if generate:
                self.generated = generate(REPO, d)
            docs = front.dump(tu, [d, REPO + "/include", REPO + "/src", HERE + "/shim"], filt)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        self.prog = front.Program(docs)
        self.parse_s = time.time() - t

    def find(self, qual, nparams=None, pred=None):
        fs = self.prog.find(qual)
        if nparams is not None:
            fs = [f for f in fs if len(front.params_of(f)) == nparams]
        if pred is not None:
            fs = [f for f in fs if pred(f)]
        if not fs:
            raise Unsupported("function %s not found" % qual)
        return fs[0]

    def record(self, qual):
        """(record, type) of a class that is not a template"""
        nm = qual.split("::")[-1]
        rec = self.prog.records.get(nm)
        if rec is None:
            raise Unsupported("class %s not found" % qual)
        return rec, T.parse(nm)

    def verify(self, qual, post, pre=None, this=None, args=None, contracts=None,
               trace=None, nparams=None, pred=None, label=None, budget=120, throws=None):
        """post(S) and pre(S) get a Scope."""
        with P.ranges():
            return self._verify(qual, post, pre, this, args, contracts, trace, nparams, pred,
                                label, budget, throws)

    def _verify(self, qual, post, pre, this, args, contracts, trace, nparams, pred, label,
                budget, throws):
        label = label or qual
        ex = Executor(self.prog, dict(contracts or {}))
        ex.func = label
        ex.deadline = time.time() + budget
        if trace:
            ex.trace_calls.update(trace)
        st = State()
        S = Scope(self, ex, st)
        n0 = len(ex.obs)
        try:
            f = self.find(qual, nparams, pred)
            f = self.prog.defn.get(f["id"], f)
            ps = front.params_of(f)
            refs = []
            for i, p in enumerate(ps):
                ty = self.prog.ty(p)
                v = args(S, i, p["name"], ty) if args else None
                if v is None:
                    v = ex.fresh(ty.noref(), "arg%d" % i)
                S.args.append(v)
                r = v if isinstance(v, Ref) else ex.new_cell(st, v, p.get("name", "p"))
                S.refs.append(r)
                refs.append(r)
            th = None
            if this is not None:
                th = this(S)
                S.this = th
            ex.cur = st
            if pre:
                pre(S)
            if st.pc and P.check(list(st.pc), FALSE, 10).ok:
                self.vacuity.append(label)
            ex.func = qual
            try:
                if f["kind"] == "CXXConstructorDecl":
                    rec, rty = self.record(qual.rsplit("::", 1)[0])
                    S.ret = ex.construct_with(st, rec, rty, f, refs)
                else:
                    S.ret = ex.call(st, f, th, refs)
            except Dead as d:
                raise Unsupported("never returns")
            ex.func = label
            for pc, what in st.throws if throws is None else ():
                ex.obs.append(Obligation(label, "no exception is thrown", list(S.pc0 or []),
                                         Not(And(*pc))))
            ex.cur = st
            if P.check(list(st.pc), FALSE, 5).ok:
                self.vacuity.append(label + " (exit)")
            if throws is not None:
                throws(S, st.throws)
            post(S)
            self.under_contract.append(label)
        except Unsupported as e:
            if os.environ.get("CPPVC_DEBUG"):
                traceback.print_exc()
            self.unsup.append((label, str(e)))
        except (KeyError, IndexError, AttributeError, TypeError, z3.Z3Exception,
                RecursionError, AssertionError) as e:
            if os.environ.get("CPPVC_DEBUG"):
                traceback.print_exc()
            self.unsup.append((label, "internal: %s %s" % (type(e).__name__, str(e)[:200])))
        else:
            ranged = dict(P.RANGED)
            for o in ex.obs:
                if not o.name.startswith(label):
                    o.func = label
                o.ranged = ranged
                self.obs.append(o)
        self.inlined |= ex.inlined
        self.assumed |= ex.used_contracts
        self.notes |= ex.notes
        return S

    def lemma(self, label, post):
        """obligations about spec functions only"""
        ex = Executor(self.prog, {})
        ex.func = label
        st = State()
        S = Scope(self, ex, st)
        with P.ranges():
            post(S)
            ranged = dict(P.RANGED)
        for o in ex.obs:
            o.func = "lemma " + label
            o.ranged = ranged
            self.obs.append(o)

    def discharge(self, timeout=20.0, workers=None):
        """every obligation, by forked workers (each obligation on its own)"""
        obs, seen = [], set()
        for o in self.obs:
            key = (o.func, o.name, tuple(h.get_id() for h in o.hyps), o.goal.get_id())
            if key not in seen:
                seen.add(key)
                obs.append(o)
        n = workers or min(8, os.cpu_count() or 1, 1 + len(obs) // 12)
        got = [None] * len(obs)
        if n > 1:
            _forked(obs, timeout, n, got)
        for i, o in enumerate(obs):
            if got[i] is None:
                got[i] = _prove_one(o, timeout)
        out = []
        for o, (ok, how, t, model, reason) in zip(obs, got):
            smt = None
            if how != "simplifier" and not how.startswith("induction"):
                smt = (o.hyps, o.goal, o.ranged)
            out.append(Result(o.func, o.name, ok, how, t, model, reason, smt))
        return out


class Model:
    """what is kept of a solver's counterexample"""

    def __init__(self, m):
        self.ints, self.reals = set(), set()
        self.text = str(m)[:4000]
        n = 0
        for d in m.decls():
            i = m[d]
            vals = []
            if isinstance(i, z3.FuncInterp):
                for k in range(min(i.num_entries(), 12)):
                    vals.append(i.entry(k).value())
                    vals.extend(i.entry(k).arg_value(q) for q in range(i.entry(k).num_args()))
                vals.append(i.else_value())
            else:
                vals.append(i)
            for v in vals:
                try:
                    if z3.is_int_value(v):
                        x = v.as_long()
                        if 0 <= x < 2 ** 62:
                            self.ints.add(x)
                    elif z3.is_rational_value(v):
                        self.reals.add(float(v.as_fraction()))
                    elif z3.is_algebraic_value(v):
                        self.reals.add(float(v.approx(10).as_fraction()))
                except Exception:
                    pass
                n += 1
                if n > 400:
                    return

    def __str__(self):
        return self.text


def _prove_one(o, timeout):
    try:
        with P.ranges(o.ranged):
            r = P.prove(o.hyps, o.goal, timeout, want_model=True)
    except Exception as e:
        return (False, "internal", 0.0, None, "internal: %s %s" % (type(e).__name__, str(e)[:200]))
    return (r.ok, r.how, r.t, Model(r.model) if r.model is not None else None, r.reason)


def _forked(obs, timeout, n, got):
    """obligation i goes to worker i mod n; a worker that dies leaves its
    obligations to the caller"""
    kids = []
    for w in range(n):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(rd)
                res, bad, t0 = [], 0, time.time()
                for i in range(w, len(obs), n):
                    lim = timeout
                    if bad >= 3 or (bad and time.time() - t0 > 90):
                        lim = min(timeout, 3.0)      # it has failed anyway
                    x = _prove_one(obs[i], lim)
                    bad += not x[0]
                    res.append((i, x))
                with os.fdopen(wr, "wb") as f:
                    pickle.dump(res, f)
                code = 0
            except BaseException:
                pass
            finally:
                os._exit(code)
        os.close(wr)
        kids.append((pid, rd))
    for pid, rd in kids:
        with os.fdopen(rd, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        try:
            for i, x in pickle.loads(data):
                got[i] = x
        except Exception:
            pass


class Scope:
    def __init__(self, sess, ex, st):
        self.sess, self.ex, self.st = sess, ex, st
        self.args, self.refs = [], []
        self.this = None
        self.ret = None
        self.pc0 = None

    def assume(self, *cs):
        for c in cs:
            self.st.assume(c)
        self.pc0 = list(self.st.pc)

    def fresh_index(self, name, n=None, lo=0):
        j = fresh_int(name)
        return j

    def ob(self, name, goal, *hyps):
        """postcondition clause under extra hypotheses"""
        goal = simp(goal) if isinstance(goal, z3.ExprRef) else z3.BoolVal(bool(goal))
        self.ex.obs.append(Obligation(self.ex.func, name,
                                      list(self.st.pc) + [simp(h) for h in hyps], goal))

    def given(self, *hyps):
        """make the hypotheses available to the case splitting of Vec.at"""
        s = self.st.copy()
        for h in hyps:
            s.assume(h)
        if P.check(list(s.pc), FALSE, 1.0).ok:
            self.sess.vacuity.append(self.ex.func + ": case " + ", ".join(str(h)[:60] for h in hyps))
        return Under(self, s)

    def method(self, v, name, *args):
        """observe a value through one of its accessors (the real body runs)"""
        ex = self.ex
        st = self.st.copy()
        rec = self.sess.prog.records.get(v.ty)
        if rec is None:
            raise Unsupported("no record " + v.ty)
        ms = [m for m in rec.methods if m.get("name") == name
              and len(front.params_of(m)) >= len(args)]
        if not ms:
            raise Unsupported("no accessor %s of %s" % (name, v.ty))
        ex.muted += 1
        try:
            r = ex.call(st, ms[0], ex.new_cell(st, v, "obs"), list(args))
            return ex.rv(st, r)
        finally:
            ex.muted -= 1

    def load(self, ref):
        return self.ex.load(self.st, ref)

    def equal(self, name, a, b, *hyps):
        import loops
        out = []
        loops.vals_equal(a, b, out, name)
        for l, h, g in out:
            self.ob(l, g, *(list(hyps) + list(h)))


class Under:
    def __init__(self, S, st):
        self.S, self.s = S, st

    def __enter__(self):
        self.old = self.S.st
        self.oldcur = self.S.ex.cur
        self.S.st = self.s
        self.S.ex.cur = self.s
        return self

    def __exit__(self, *a):
        self.S.st = self.old
        self.S.ex.cur = self.oldcur
        return False
