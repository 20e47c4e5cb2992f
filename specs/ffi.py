"""Contracts of the foreign-function layer (src/RustFFI.cpp): every operation
has the effect of one native call, both run from the same arbitrary state."""
import z3
import bridge
import front
import loops
import types_ as T
import values as V
import prove as P
import lib as L
from values import *
import path
from path import LIM

SRC = ["src/RustFFI.cpp", "src/path/SwervePathBuilder.cpp", "src/util/Cancellation.cpp"]
R_ = "trajopt::rsffi::SwervePathBuilder::"
N_ = "trajopt::SwervePathBuilder::"

PRE = """
#include <trajopt/path/SwervePathBuilder.hpp>
#include <trajopt/trajectory/HolonomicTrajectory.hpp>
#include <trajopt/SwerveTrajectoryGenerator.hpp>
#include <RustFFI.hpp>
#include <trajoptlib/src/lib.rs.h>
namespace trajopt::vc {
using NB = trajopt::SwervePathBuilder;
inline SwerveModule mk_module(double x, double y, double r, double v, double t) { return SwerveModule{Translation2d{x, y}, r, v, t}; }
inline Bumpers mk_bumpers(double l, double w) {
  return Bumpers{.safetyDistance = 0.01,
                 .points = {{l / 2, w / 2}, {-l / 2, w / 2}, {-l / 2, -w / 2}, {l / 2, -w / 2}}};
}
inline Pose2d mk_guess(double x, double y, double h) { return Pose2d{x, y, Rotation2d{h}}; }
inline Translation2d mk_point(double x, double y) { return Translation2d{x, y}; }
inline Constraint mk_dir(double a) { return LinearVelocityDirectionConstraint{a}; }
inline Constraint mk_vel(double a) { return LinearVelocityMaxMagnitudeConstraint{a}; }
inline Constraint mk_omega(double a) { return AngularVelocityMaxMagnitudeConstraint{a}; }
inline Constraint mk_accel(double a) { return LinearAccelerationMaxMagnitudeConstraint{a}; }
inline Constraint mk_at(double x, double y, double t) { return PointAtConstraint{Translation2d{x, y}, t}; }
inline Obstacle mk_circle(double x, double y, double r) { return Obstacle{r, {{x, y}}}; }
inline HolonomicTrajectory mk_trajectory(const SwerveSolution& s) { return HolonomicTrajectory{s}; }
inline NB fresh_builder() { return NB{}; }
}
"""


class NotYet(Exception):
    pass


def mk(S, fn, *args):
    return path.call(S, fn, *args)


def inner(sess):
    """the native builder inside the foreign-function one"""
    rec = sess.prog.records.get("rsffi::SwervePathBuilder")
    if rec is None:
        raise Unsupported("class rsffi::SwervePathBuilder not found")
    fs = [f for f in rec.fields if sess.prog.ty(rec.ftypes[f]).canon() == "SwervePathBuilder"]
    if len(fs) != 1:
        raise Unsupported("the native builder inside rsffi::SwervePathBuilder")
    return rec, fs[0]


# the native operations, used through their contracts (C05-C07): what each does
# to a builder is a function of the builder's state and the arguments
NATIVE = ("SetDrivetrain", "AddBumpers", "ControlIntervalCounts", "PoseWpt", "TranslationWpt",
          "WptInitialGuessPoint", "SgmtInitialGuessPoints", "WptConstraint", "SgmtConstraint",
          "WptObstacle", "SgmtObstacle", "AddIntermediateCallback")


def by_contract():
    def ev(nm):
        def h(ex, st, this, args, f):
            if not isinstance(this, Ref):
                raise Unsupported("native call on a temporary")
            ps = front.params_of(f)
            vals = [ex.convert(st, ex.rv(st, a), ex.prog.ty(p), ex.prog.ty(p).noref()) for a, p in zip(args, ps)]
            if len(vals) < len(ps):
                raise Unsupported("defaulted argument of " + nm)
            ex.event(st, nm, [Opaque("on", (this.cell,) + tuple(this.path))] + vals)
            return Opaque("void")
        return h
    return {"SwervePathBuilder::" + n: ev(n) for n in NATIVE}


class Ffi:
    """one state of the foreign-function builder and the native operations on
    a copy of it"""

    def __init__(self, sess):
        self.rec, self.field = inner(sess)
        self.sess = sess

    def this(self, S):
        S.ro = path.role(self.sess)
        v = S.ex.fresh(T.parse("trajopt::rsffi::SwervePathBuilder"), "self")
        v.f[self.field] = S.ex.fresh(T.parse("SwervePathBuilder"), "self")
        S.old = path.Builder(S.ro, v.f[self.field])
        self.whole = v
        self.ref = S.ex.new_cell(S.st, v, "this")
        return self.ref

    def nref(self):
        return Ref(self.ref.cell, tuple(self.ref.path) + (self.field,))

    def native(self, S, st, name, args):
        """the native call, on the state st"""
        ex = S.ex
        f = S.sess.find(N_ + name, len(args))
        f = S.sess.prog.defn.get(f["id"], f)
        ex.muted += 1
        try:
            return ex.rv(st, ex.call(st, f, self.nref(), list(args)))
        finally:
            ex.muted -= 1
            ex.cur = S.st


def items(st):
    t = st.cells.get("$trace")
    return list(t.items) if t is not None else []


def compare(S, F, st2):
    """the state after the foreign call is the state after the native one"""
    a, b = items(S.st), items(st2)
    S.ob("the same native operations", TRUE if len(a) == len(b) and all(
        x[0] == y[0] == "ev" and x[2] == y[2] and len(x[3]) == len(y[3]) for x, y in zip(a, b)) else FALSE)
    for x, y in zip(a, b):
        if not (x[0] == y[0] == "ev" and x[2] == y[2] and len(x[3]) == len(y[3])):
            continue
        S.ob("%s: always" % x[2], x[1])
        for i, (p, q) in enumerate(zip(x[3], y[3])):
            S.equal("%s: %s" % (x[2], "argument %d" % i if i else "the builder"), p, q)
    va = S.ex.load(S.st, F.ref)
    vb = S.ex.load(st2, F.ref)
    if set(va.f) != set(vb.f):
        raise Unsupported("fields of the builder")
    for f in va.f:
        if f != F.field:
            S.equal("state " + f, va.f[f], vb.f[f])
    x, y = path.Builder(S.ro, va.f[F.field]), path.Builder(S.ro, vb.f[F.field])
    if V.same(x.v, y.v):
        S.ob("the same builder afterwards", TRUE)
        return
    for nm in ("drivetrain", "callbacks", "bumpers", "counts"):
        S.equal("the same " + nm, getattr(x, nm), getattr(y, nm))
    S.ob("the same number of waypoints", x.n == y.n)
    S.ob("the same number of guess lists", x.guess.size() == y.guess.size())
    k = fresh_int("k")
    with S.given(k >= 0, k < x.n):
        S.equal("the same waypoints", x.wp.at(k), y.wp.at(k))
    with S.given(k >= 0, k < x.guess.size()):
        S.equal("the same guess poses", x.guess.at(k), y.guess.at(k))


def rsvec(S, ety, v, fn):
    """the native vector with element fn(element of v)"""
    J = fresh_int("j")
    with S.given(J >= 0, J < v.size()):
        e = fn(v.at(J))
    return Vec(ety, (Sym(v.size(), J, e),))


def drivetrain(S, d):
    mods = rsvec(S, "SwerveModule", d.f["modules"], lambda m: mk(
        S, "mk_module", *[m.f[k] for k in ("x", "y", "wheel_radius", "wheel_max_angular_velocity", "wheel_max_torque")]))
    return Struct("SwerveDrivetrain", {"mass": d.f["mass"], "moi": d.f["moi"], "modules": mods})


def poses(S, v):
    return rsvec(S, "Pose2<double>", v, lambda p: mk(S, "mk_guess", p.f["x"], p.f["y"], p.f["heading"]))


def polygon(S, x, y, r):
    J = fresh_int("j")
    with S.given(J >= 0, J < x.size()):
        e = mk(S, "mk_point", x.at(J), y.at(J))
    return Struct("Obstacle", {"safetyDistance": r, "points": Vec("Translation2<double>", (Sym(x.size(), J, e),))})


def con(fn):
    def wpt(S, a):
        return "WptConstraint", [a[0], mk(S, fn, *a[1:])]

    def sgmt(S, a):
        return "SgmtConstraint", [a[0], a[1], mk(S, fn, *a[2:])]
    return wpt, sgmt


def ops():
    o = {
        "set_drivetrain": lambda S, a: ("SetDrivetrain", [drivetrain(S, a[0])]),
        "set_bumpers": lambda S, a: ("AddBumpers", [mk(S, "mk_bumpers", a[0], a[1])]),
        "set_control_interval_counts": lambda S, a: ("ControlIntervalCounts", [a[0]]),
        "pose_wpt": lambda S, a: ("PoseWpt", list(a)),
        "translation_wpt": lambda S, a: ("TranslationWpt", list(a)),
        "empty_wpt": lambda S, a: ("WptInitialGuessPoint", [a[0], mk(S, "mk_guess", *a[1:])]),
        "sgmt_initial_guess_points": lambda S, a: ("SgmtInitialGuessPoints", [a[0], poses(S, a[1])]),
        "sgmt_circle_obstacle": lambda S, a: ("SgmtObstacle", [a[0], a[1], mk(S, "mk_circle", *a[2:])]),
        "sgmt_polygon_obstacle": lambda S, a: ("SgmtObstacle", [a[0], a[1], polygon(S, *a[2:])]),
    }
    for nm, fn in (("linear_velocity_direction", "mk_dir"), ("linear_velocity_max_magnitude", "mk_vel"),
                   ("angular_velocity_max_magnitude", "mk_omega"), ("linear_acceleration_max_magnitude", "mk_accel"),
                   ("point_at", "mk_at")):
        o["wpt_" + nm], o["sgmt_" + nm] = con(fn)
    return o


def v_op(sess, name, want, contracts=None):
    F = Ffi(sess)

    def pre(S):
        path.invariant(S)
        for i, a in enumerate(S.args):
            if isinstance(a, z3.ExprRef) and a.sort() == I:
                S.assume(a <= LIM)
            elif isinstance(a, Vec):
                S.assume(a.size() <= LIM)
            elif isinstance(a, Struct) and "modules" in a.f:
                S.assume(a.f["modules"].size() <= LIM)
        if name.startswith("sgmt") and name != "sgmt_initial_guess_points":
            S.assume(S.args[0] < S.args[1])
        if name.endswith(("max_magnitude", "angular_velocity_max_magnitude", "point_at")):
            S.assume(S.args[-1] >= 0)       # what the native constructors assert
        if name == "sgmt_polygon_obstacle":
            S.assume(S.args[2].size() == S.args[3].size(), S.args[2].size() >= 1)
        S.before = S.st.copy()

    def post(S):
        st2 = S.before.copy()
        nm, args = want(S, S.args)
        F.native(S, st2, nm, args)
        compare(S, F, st2)
    sess.verify(R_ + name, post, pre, this=F.this, label=name, contracts=contracts)


def v_mismatch(sess, contracts=None):
    """coordinate lists of different length describe no polygon"""
    name = "sgmt_polygon_obstacle"
    F = Ffi(sess)

    def pre(S):
        path.invariant(S)
        for a in S.args:
            if isinstance(a, z3.ExprRef) and a.sort() == I:
                S.assume(a <= LIM)
            elif isinstance(a, Vec):
                S.assume(a.size() <= LIM)
        S.assume(S.args[0] < S.args[1], S.args[2].size() != S.args[3].size())
        S.before = S.st.copy()

    def post(S):
        compare(S, F, S.before.copy())
    sess.verify(R_ + name, post, pre, this=F.this, label=name + " (lists of different length)", contracts=contracts)


def settled(sess, n0):
    """the obligations generated since n0 all hold"""
    return all(P.prove(o.hyps, o.goal, 3).ok for o in sess.obs[n0:])


def v_ops(sess):
    for name, want in ops().items():
        two_ways(sess, lambda ct: v_op(sess, name, want, ct))
    two_ways(sess, lambda ct: v_mismatch(sess, ct))


def two_ways(sess, run):
    """against the contracts of the native operations; if that does not
    decide it (another native operation is used), against their bodies"""
    n0, u0, c0, v0 = len(sess.obs), len(sess.unsup), len(sess.under_contract), len(sess.vacuity)
    run(by_contract())
    if len(sess.unsup) == u0 and settled(sess, n0):
        return
    first = sess.obs[n0:], sess.unsup[u0:]
    del sess.obs[n0:], sess.unsup[u0:], sess.under_contract[c0:], sess.vacuity[v0:]
    run(None)
    if len(sess.unsup) > u0 and not first[1]:
        del sess.obs[n0:], sess.unsup[u0:]
        sess.obs.extend(first[0])


# ------------------------------------------------- results, callbacks, the rest

ROLES = (("timestamp", "timestamp"), ("x", "x"), ("y", "y"), ("heading", "heading"),
         ("velocity_x", "velocityX"), ("velocity_y", "velocityY"), ("angular_velocity", "angularVelocity"),
         ("module_forces_x", "moduleForcesX"), ("module_forces_y", "moduleForcesY"))


def trajectory_contract(hold):
    """HolonomicTrajectory(solution) is a function of the solution (C19)"""
    def h(ex, st, this, args, f):
        if len(args) != 1:
            return NotImplemented
        v = ex.rv(st, args[0])
        if not (isinstance(v, Struct) and "moduleFX" in v.f):
            return NotImplemented
        for a, r in hold.setdefault("trajectories", []):
            if V.same(a, v):
                return r
        r = ex.fresh(T.parse("HolonomicTrajectory"), "traj%d" % len(hold["trajectories"]))
        st.assume(r.f["samples"].size() <= LIM)
        hold["trajectories"].append((v, r))
        return r
    return h


def native_trajectory(S, hold, sol):
    ex, st = S.ex, S.st.copy()
    f = S.sess.find("trajopt::vc::mk_trajectory")
    ex.muted += 1
    try:
        return ex.rv(st, ex.call(st, f, None, [sol]))
    finally:
        ex.muted -= 1
        ex.cur = S.st


def same_trajectory(S, hold, what, rs, sol):
    t = native_trajectory(S, hold, sol)
    if not (isinstance(rs, Struct) and "samples" in rs.f):
        S.ob("%s: a trajectory" % what, FALSE)
        return
    a, b = rs.f["samples"], t.f["samples"]
    S.ob("%s: as many samples" % what, a.size() == b.size())
    k = fresh_int("k")
    with S.given(k >= 0, k < b.size()):
        x, y = a.at(k), b.at(k)
        for r, n in ROLES:
            if r not in x.f:
                raise Unsupported("no field %s in the shared sample" % r)
            S.equal("%s: %s" % (what, r), x.f[r], y.f[n])


def v_generate(sess, contracts=True):
    F = Ffi(sess)
    hold = {}

    def c_ctor(ex, st, this, args, f):
        if len(args) < 1:
            raise Unsupported("generator constructed without a builder")
        b = ex.rv(st, args[0])
        h = ex.rv(st, args[1]) if len(args) > 1 and args[1] is not None else ZERO
        hold.setdefault("generators", []).append((b, h))
        return Opaque("generator", (len(hold["generators"]) - 1,))

    def c_generate(ex, st, this, args, f):
        d = ex.rv(st, args[0]) if args else FALSE
        hold.setdefault("runs", []).append((ex.rv(st, this), d))
        has = z3.Bool(V.uid("solved"))
        hold["has"] = has
        hold["sol"] = ex.fresh(T.parse("SwerveSolution"), "sol")
        hold["err"] = Opaque("err", (V.uid("message"),))
        return Struct("expected", {"has": has, "val": hold["sol"], "err": hold["err"]})
    ct = {"SwerveTrajectoryGenerator::SwerveTrajectoryGenerator": c_ctor,
          "SwerveTrajectoryGenerator::Generate": c_generate,
          "HolonomicTrajectory::HolonomicTrajectory": trajectory_contract(hold)}

    def pre(S):
        path.invariant(S)
        S.before = S.ex.load(S.st, F.ref)

    def throws(S, ts):
        S.ob("one generator is run once", TRUE if len(hold.get("runs", ())) == 1 and
             len(hold.get("generators", ())) == 1 else FALSE)
        if len(hold.get("runs", ())) != 1 or len(hold.get("generators", ())) != 1:
            raise Unsupported("generators")
        b, h = hold["generators"][0]
        g, d = hold["runs"][0]
        S.ob("of that generator", TRUE if isinstance(g, Opaque) and g.key == "generator" else FALSE)
        S.ob("it generates from the builder", TRUE if V.same(b, S.before.f[F.field]) else FALSE)
        S.ob("with the handle given", h == S.args[1])
        S.ob("with the diagnostics given", d == S.args[0])
        for i, (pc, what) in enumerate(ts):
            old = S.st
            S.st = S.st.copy()
            S.st.pc = list(pc)
            try:
                S.ob("an error is reported only if generating failed", Not(hold["has"]))
                w = S.ex.rv(S.st, what)
                S.ob("the error is the generator's message", TRUE if message(w, hold["err"]) else FALSE)
            finally:
                S.st = old

    def post(S):
        S.ob("a trajectory is returned only if generating succeeded", hold["has"])
        S.equal("the builder is left alone", S.ex.load(S.st, F.ref).f[F.field], S.before.f[F.field])
        same_trajectory(S, hold, "result", S.ex.rv(S.st, S.ret), hold["sol"])
    sess.verify(R_ + "generate", post, pre, this=F.this, label="generate", contracts=ct, throws=throws)


ERRORS = ("runtime_error", "logic_error", "invalid_argument", "domain_error", "range_error", "exception")


def message(w, err):
    if not (isinstance(w, Opaque) and w.key in ERRORS and len(w.args) == 1):
        return False
    w = L.text(w.args[0])
    while isinstance(w, Opaque) and w.key in ("str", "string", "basic_string", "c_str") and len(w.args) == 1:
        w = L.text(w.args[0])
    return isinstance(w, Opaque) and V.same(w, err)


def v_callback(sess):
    F = Ffi(sess)
    hold = {}

    def pre(S):
        path.invariant(S)
        S.before = S.ex.load(S.st, F.ref)

    def post(S):
        ex = S.ex
        now = S.ex.load(S.st, F.ref).f[F.field]
        b = path.Builder(S.ro, now)
        S.ob("one more callback", b.callbacks.size() == S.old.callbacks.size() + 1)
        k = fresh_int("k")
        with S.given(k >= 0, k < S.old.callbacks.size()):
            S.equal("callbacks already there stay", b.callbacks.at(k), S.old.callbacks.at(k))
        for nm in ("wp", "drivetrain", "bumpers", "guess", "counts"):
            x, y = getattr(b, nm), getattr(S.old, nm)
            if V.same(x, y):
                S.ob("%s stays" % nm, TRUE)
            else:
                S.equal("%s stays" % nm, x, y)
        fn = b.callbacks.at(simp(S.old.callbacks.size()))
        # any later call of it
        st = S.st.copy()
        st.cells["$trace"] = V.Trace("trace")
        sol = ex.fresh(T.parse("SwerveSolution"), "sol")
        handle = z3.Int(V.uid("handle"))
        P.RANGED[handle.decl().name()] = (-2 ** 63, 2 ** 63 - 1)
        old = S.st, ex.cur
        S.st = ex.cur = st
        try:
            if isinstance(fn, Closure):
                ex.call_closure(st, fn, [ex.new_cell(st, sol, "solution"), handle])
            else:
                raise Unsupported("the callback is not a lambda")
            evs = [i for i in items(st)]
            S.ob("the callback is called once", TRUE if len(evs) == 1 and evs[0][0] == "ev" and evs[0][2] == "call" else FALSE)
            if len(evs) == 1 and evs[0][0] == "ev" and evs[0][2] == "call":
                S.ob("on every iteration it is told of", evs[0][1])
                a = evs[0][3]
                S.ob("it is the callback given", TRUE if V.same(a[0], S.args[0]) else FALSE)
                S.ob("with a trajectory and a handle", TRUE if len(a) == 3 else FALSE)
                if len(a) == 3:
                    S.equal("with the handle", a[2], handle)
                    same_trajectory(S, hold, "progress", a[1], sol)
        finally:
            S.st, ex.cur = old
    sess.verify(R_ + "add_progress_callback", post, pre, this=F.this, label="add_progress_callback",
                contracts={"HolonomicTrajectory::HolonomicTrajectory": trajectory_contract(hold)})


def v_rest(sess):
    rec, field = inner(sess)

    def post(S):
        r = S.ex.rv(S.st, S.ret)
        if isinstance(r, Ref):
            r = S.ex.load(S.st, r)
        st = S.st.copy()
        S.ex.muted += 1
        try:
            want = S.ex.rv(st, S.ex.call(st, S.sess.find("trajopt::vc::fresh_builder"), None, []))
        finally:
            S.ex.muted -= 1
            S.ex.cur = S.st
        ok = isinstance(r, Struct) and field in r.f
        S.ob("a builder is made", TRUE if ok else FALSE)
        if ok:
            S.ro = path.role(sess)
            a, b = path.Builder(S.ro, r.f[field]), path.Builder(S.ro, want)
            for nm in ("wp", "callbacks", "bumpers", "guess", "counts"):
                S.equal("a new native builder: " + nm, getattr(a, nm), getattr(b, nm))
    sess.verify("trajopt::rsffi::swerve_path_builder_new", post, label="swerve_path_builder_new")

    def post(S):
        f = S.sess.find("trajopt::GetCancellationFlag")
        ref = S.ex.call(S.st, f, None, [])
        S.ob("cancellation is requested", S.ex.load(S.st, ref) != 0)
    sess.verify("trajopt::rsffi::cancel_all", post, label="cancel_all")


def v_signatures(sess):
    """every operation has exactly the parameter types the bridge declares
    (decided by the compiler: the conversions cxx's generated code makes)"""
    import os
    import subprocess
    import tempfile
    import verify

    def post(S):
        with tempfile.TemporaryDirectory(prefix="cppvc") as d:
            b = bridge.write(verify.REPO, d)
            tu = os.path.join(d, "t.cpp")
            with open(tu, "w") as f:
                f.write("#include <RustFFI.hpp>\n#include <trajoptlib/src/lib.rs.h>\n#include <bridge_check.hpp>\n")
            p = subprocess.run([front.CLANG, "-std=c++20", "-fsyntax-only", "-w", "-I", d, "-I", verify.REPO + "/include",
                                "-I", verify.REPO + "/src", "-I", verify.HERE + "/shim", tu],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            sess.notes.add(p.stdout[:1000])
        S.ob("the %d operations have the parameter types the bridge declares" % len(b.fns),
             TRUE if p.returncode == 0 else FALSE)
    sess.lemma("bridge signatures", post)
