"""Contracts of the constraint classes: after Apply the problem has exactly the
constraints it had before plus some whose feasible set is the geometric meaning."""
import z3
import verify
import loops
import values as V
import prove as P
from values import *

STATE = ("sleipnir::OptimizationProblem& scratch, const Pose2v& pose0, sleipnir::OptimizationProblem& problem, "
         "const Pose2v& pose, const Translation2v& linearVelocity, const sleipnir::Variable& angularVelocity, "
         "const Translation2v& linearAcceleration, const sleipnir::Variable& angularAcceleration")

CLASSES = {
    "LinePointConstraint": "const Translation2d& a, const Translation2d& b, const Translation2d& c, double m",
    "PointLineConstraint": "const Translation2d& a, const Translation2d& b, const Translation2d& c, double m",
    "PointPointConstraint": "const Translation2d& a, const Translation2d& b, double m",
    "LinearVelocityMaxMagnitudeConstraint": "double m",
    "LinearAccelerationMaxMagnitudeConstraint": "double m",
    "AngularVelocityMaxMagnitudeConstraint": "double m",
    "LinearVelocityDirectionConstraint": "double m",
    "PoseEqualityConstraint": "double x, double y, double heading",
    "TranslationEqualityConstraint": "double x, double y",
    "PointAtConstraint": "const Translation2d& a, double m",
}


def probes(names):
    o = []
    for n in names:
        o.append("#include <trajopt/constraint/%s.hpp>" % n)
    o.append("#include <trajopt/geometry/Pose2.hpp>\nnamespace trajopt::vc {\n"
             "inline Pose2v touch() { return Pose2v{Translation2v{0.0, 0.0}, Rotation2v{1.0, 0.0}}; }\n"
             "inline double touch(const Pose2v& p) { return p.Translation().X().Value() + p.Rotation().Sin().Value() + p.Translation().Y().Value() + p.Rotation().Cos().Value(); }")
    for n in names:
        ps = CLASSES[n]
        args = ", ".join(p.split()[-1] for p in ps.split(","))
        o.append("inline void probe_%s(%s, %s) {\n  %s constraint{%s};\n"
                 "  constraint.Apply(scratch, pose0, linearVelocity, angularVelocity, linearAcceleration, angularAcceleration);\n"
                 "  constraint.Apply(problem, pose, linearVelocity, angularVelocity, linearAcceleration, angularAcceleration);\n}"
                 % (n, STATE, ps, n, args))
    o.append("}\n")
    return "\n".join(o)


def den(v):
    return v.den if isinstance(v, SVar) else v


def feasible(items):
    out = []
    for it in items:
        if it[0] == "c":
            _, g, kind, r = it
            out.append(Implies(g, r == 0 if kind == "eq" else r >= 0))
        elif it[0] == "all":
            raise Unsupported("a loop of constraints inside Apply")
        else:
            raise Unsupported("log item " + str(it[0]))
    return And(*out)


# ------------------------------------------------ distance of point and segment
# squared distance of P to the segment A B (A != B), as a spec function
SEG = z3.Function("segdist2", R, R, R, R, R, R, R)


def seg_parts(a, b, p):
    lx, ly = b[0] - a[0], b[1] - a[1]
    vx, vy = p[0] - a[0], p[1] - a[1]
    return dict(L=lx * lx + ly * ly, d=vx * lx + vy * ly, V=vx * vx + vy * vy,
                W=(p[0] - b[0]) * (p[0] - b[0]) + (p[1] - b[1]) * (p[1] - b[1]))


def rigid(e, terms):
    """Distances at arguments which are the image of one another under the
    pose's rigid motion: [(name, obligation)], [facts they give].

    segdist2 is a function of L, d and V (v_segment; W is V - 2 d + L), so two
    applications with the same three are the same number.  That they are the
    same is an identity modulo c c + s s = 1, whose cofactor is found here and
    then checked by the prover."""
    import sympy
    apps, seen, names = [], set(), {}

    def walk(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().eq(SEG):
                apps.append(t)
            for x in t.children():
                walk(x)
    for t in terms:
        walk(t)

    def sym(t):
        if z3.is_rational_value(t):
            return sympy.Rational(t.numerator_as_long(), t.denominator_as_long())
        k = t.decl().kind() if z3.is_app(t) else None
        if k == z3.Z3_OP_ADD:
            return sum((sym(x) for x in t.children()), sympy.Integer(0))
        if k == z3.Z3_OP_MUL:
            return sympy.prod([sym(x) for x in t.children()])
        if k == z3.Z3_OP_SUB:
            a = [sym(x) for x in t.children()]
            return a[0] - sum(a[1:])
        if k == z3.Z3_OP_UMINUS:
            return -sym(t.arg(0))
        return names.setdefault(t.sexpr(), (sympy.Symbol("x%d" % len(names)), t))[0]

    def back(p):
        at = {v: t for v, t in names.values()}
        out = z3.RealVal(0)
        for mon, co in p.terms():
            m = z3.Q(int(co.p), int(co.q))
            for g, n in zip(p.gens, mon):
                for _ in range(n):
                    m = m * at[g]
            out = out + m
        return out

    c, s = e["pose"][2:]
    one = c * c + s * s - 1
    obs, facts = [], []
    for i, a in enumerate(apps):
        for b in apps[:i]:
            ca, cb = a.children(), b.children()
            p0 = seg_parts(ca[:2], ca[2:4], ca[4:])
            # as it is, and with the ends of the one exchanged (lemma_segment)
            for p1 in (seg_parts(cb[:2], cb[2:4], cb[4:]), seg_parts(cb[2:4], cb[:2], cb[4:])):
                got = []
                for k in ("L", "d", "V"):
                    df = sympy.expand(sym(p0[k]) - sym(p1[k]))
                    qs, r = sympy.reduced(df, [sympy.expand(sym(one))], *[v for v, _ in names.values()])
                    if r != 0:
                        break
                    q = sympy.Poly(qs[0] if qs else 0, *[v for v, _ in names.values()])
                    got.append(p0[k] - p1[k] == one * back(q))
                else:
                    obs.append(z3.And(*got))
                    facts.append(a == b)
                    break
    return obs, facts


def c_LinePointDistance(ex, st, this, args, f):
    vs = []
    for a in args[:3]:
        t = ex.rv(st, a)
        if not isinstance(t, Struct):
            return NotImplemented
        vs.append(obs_T(ex, st, t))
    a, b, p = vs
    q = seg_parts(a, b, p)
    ex.ob(st, "precondition of LinePointDistance: the segment is not degenerate", q["L"] > 0)
    return SVar(SEG(a[0], a[1], b[0], b[1], p[0], p[1]))


def obs_T(ex, st, t):
    out = []
    import front
    rec = ex.prog.records.get(t.ty)
    s2 = st.copy()
    for nm in ("X", "Y"):
        ms = [m for m in rec.methods if m.get("name") == nm]
        ex.muted += 1
        try:
            out.append(den(ex.rv(s2, ex.call(s2, ms[0], ex.new_cell(s2, t, "o"), []))))
        finally:
            ex.muted -= 1
        ex.cur = st
    return out


PRE_SEG = """
#include <trajopt/constraint/detail/LinePointDistance.hpp>
namespace trajopt::vc {
inline auto probe_seg_vd(const Translation2v& a, const Translation2v& b, const Translation2d& p) { return detail::LinePointDistance(a, b, p); }
inline auto probe_seg_dv(const Translation2d& a, const Translation2d& b, const Translation2v& p) { return detail::LinePointDistance(a, b, p); }
}
"""


def v_segment(sess):
    """LinePointDistance is the squared distance from the point to the segment."""
    for k in ("vd", "dv"):
        def T_(S, i):
            v = S.args[i]
            return [den(S.method(v, "X")), den(S.method(v, "Y"))]

        def pre(S):
            a, b, p = T_(S, 0), T_(S, 1), T_(S, 2)
            S.assume(seg_parts(a, b, p)["L"] > 0)

        def post(S):
            a, b, p = T_(S, 0), T_(S, 1), T_(S, 2)
            q = seg_parts(a, b, p)
            r = den(S.ret)
            # names for the polynomials, so that the cases are small goals
            S.ob("nearest point is the start", r == q["V"], q["d"] <= 0)
            S.ob("nearest point is the end", r == q["W"], q["d"] >= q["L"])
            S.ob("nearest point is between", r * q["L"] == q["V"] * q["L"] - q["d"] * q["d"],
                 q["d"] > 0, q["d"] < q["L"])
        sess.verify("trajopt::vc::probe_seg_" + k, post, pre, label="detail::LinePointDistance<%s>" % (
            "Variable,double" if k == "vd" else "double,Variable"))


def lemma_segment(sess):
    """The three cases of v_segment give min over tau in [0,1] |A + tau(B-A) - P|^2."""
    def post(S):
        L, d, V_, W, r, t = [z3.Real(x) for x in ("L", "d", "V", "W", "r", "t")]
        f = lambda x: V_ - 2 * x * d + x * x * L
        ax, ay, bx, by, px, py = [z3.Real("s" + str(i)) for i in range(6)]
        q = seg_parts((ax, ay), (bx, by), (px, py))
        tt = z3.Real("tt")
        gx, gy = ax + tt * (bx - ax) - px, ay + tt * (by - ay) - py
        S.ob("lemma: squared distance to the point at parameter t is V - 2 t d + t t L",
             gx * gx + gy * gy == q["V"] - 2 * tt * q["d"] + tt * tt * q["L"])
        S.ob("lemma: W = V - 2 d + L", q["W"] == q["V"] - 2 * q["d"] + q["L"])
        u = seg_parts((bx, by), (ax, ay), (px, py))
        S.ob("lemma: exchanging the ends of a segment maps L, d, V, W to L, L - d, W, V",
             And(u["L"] == q["L"], u["d"] == q["L"] - q["d"], u["V"] == q["W"], u["W"] == q["V"]))
        is_dist = lambda L_, d_, V1, W1, r_: And(
            Implies(d_ <= 0, r_ == V1), Implies(d_ >= L_, r_ == W1),
            Implies(And(d_ > 0, d_ < L_), r_ * L_ == V1 * L_ - d_ * d_))
        S.ob("lemma: the distance of a segment does not depend on the order of its ends",
             is_dist(L, L - d, W, V_, r), is_dist(L, d, V_, W, r), L > 0, W == V_ - 2 * d + L)
        cases = [("start", [d <= 0, r == V_], ZERO), ("end", [d >= L, r == W], ONE),
                 ("between", [d > 0, d < L, r * L == V_ * L - d * d], None)]
        for nm, h, at in cases:
            hyp = [L > 0, t >= 0, t <= 1, W == V_ - 2 * d + L] + h
            if at is None:
                # L (f(t) - r) = (t L - d)^2
                S.ob("lemma: between: L (f(t) - r) = (t L - d)^2", L * (f(t) - r) == (t * L - d) * (t * L - d), *hyp)
                sq, df = z3.Real("sq"), z3.Real("df")
                S.ob("lemma: between: no point of the segment is nearer", df >= 0, L > 0, L * df == sq * sq)
                x = z3.Real("x")
                S.ob("lemma: between: the distance is attained", f(x) == r, L > 0, x * L == d, r * L == V_ * L - d * d)
            else:
                S.ob("lemma: %s: no point of the segment is nearer" % nm, f(t) >= r, *hyp)
                S.ob("lemma: %s: the distance is attained" % nm, f(z3.ToReal(at)) == r, *hyp)
    sess.lemma("segment distance", post)


def run(sess, name, want, pre=None, contracts=None, lemmas=None):
    """want(e) -> predicate; e has the observed state and constructor arguments"""
    def args(S, i, nm, ty):
        if ty.noref().name == "OptimizationProblem":
            return S.ex.new_problem(S.st)
        return None

    def env(S):
        e = {}
        names = ["scratch", "pose0", "problem", "pose", "v", "w", "acc", "alpha"]
        for i, n in enumerate(names):
            if "problem" in n or n == "scratch":
                continue
            v = S.args[i]
            if n.startswith("pose"):
                t, r = S.method(v, "Translation"), S.method(v, "Rotation")
                e[n] = (den(S.method(t, "X")), den(S.method(t, "Y")), den(S.method(r, "Cos")), den(S.method(r, "Sin")))
            elif isinstance(v, SVar):
                e[n] = v.den
            else:
                e[n] = (den(S.method(v, "X")), den(S.method(v, "Y")))
        cn = [p.split()[-1] for p in CLASSES[name].split(",")]
        for n, v in zip(cn, S.args[8:]):
            e[n] = v if isinstance(v, z3.ExprRef) else (S.method(v, "X"), S.method(v, "Y"))
        x, y, c, s = e["pose"]
        e["move"] = lambda p: (x + p[0] * c - p[1] * s, y + p[0] * s + p[1] * c)
        return e

    def pre_(S):
        e = env(S)
        x, y, c, s = e["pose"]
        x0, y0, c0, s0 = e["pose0"]
        if name not in ("PoseEqualityConstraint",):
            S.assume(c * c + s * s == 1, c0 * c0 + s0 * s0 == 1)
        if pre:
            S.assume(*pre(e))

    def post_(S):
        e = env(S)
        old = S.args[2]
        new = S.load(S.refs[2])
        lg = new.f["log"]
        S.ob("constraints already there stay", lg.base == old.f["log"].base and
             lg.items[:len(old.f["log"].items)] == old.f["log"].items)
        for k in ("objective", "callback"):
            S.ob("%s of the problem is untouched" % k, new.f[k] is old.f[k])
        have = feasible(lg.items[len(old.f["log"].items):])
        w = want(e)
        extra = lemmas(e) if lemmas else []
        for i, l in enumerate(extra):
            S.ob("lemma %d" % i, l)
        obs, facts = rigid(e, [have, w])
        for l in obs:
            S.ob("lemma: a rigid motion keeps the distance of a point and a segment", l)
        extra = extra + facts
        S.ob("every admitted state satisfies the property", Implies(have, w), *extra)
        S.ob("every state with the property is admitted", Implies(w, have), *extra)
    sess.verify("trajopt::vc::probe_" + name, post_, pre_, args=args, label=name + "::Apply",
                contracts=contracts)


def distance(sess):
    def sq(a, b):
        return (a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1])
    seg = lambda a, b, p: SEG(a[0], a[1], b[0], b[1], p[0], p[1])
    run(sess, "PointPointConstraint", lambda e: sq(e["move"](e["a"]), e["b"]) >= e["m"] * e["m"],
        lambda e: [e["m"] >= 0])
    C = {"detail::LinePointDistance": c_LinePointDistance}
    nn = lambda e: [e["m"] >= 0]
    # a segment whose ends coincide is a point
    line = lambda e: z3.If(sq(e["a"], e["b"]) == 0, sq(e["move"](e["a"]), e["c"]), seg(e["move"](e["a"]), e["move"](e["b"]), e["c"]))
    field = lambda e: z3.If(sq(e["b"], e["c"]) == 0, sq(e["b"], e["move"](e["a"])), seg(e["b"], e["c"], e["move"](e["a"])))
    run(sess, "LinePointConstraint", lambda e: line(e) >= e["m"] * e["m"], nn, C)
    run(sess, "PointLineConstraint", lambda e: field(e) >= e["m"] * e["m"], nn, C)


def limits(sess):
    m2 = lambda e: e["m"] * e["m"]
    nn = lambda e: [e["m"] >= 0]
    run(sess, "LinearVelocityMaxMagnitudeConstraint", lambda e: e["v"][0] * e["v"][0] + e["v"][1] * e["v"][1] <= m2(e), nn)
    run(sess, "LinearAccelerationMaxMagnitudeConstraint", lambda e: e["acc"][0] * e["acc"][0] + e["acc"][1] * e["acc"][1] <= m2(e), nn)
    run(sess, "AngularVelocityMaxMagnitudeConstraint", lambda e: And(e["w"] <= e["m"], e["w"] >= -e["m"]), nn)

    def ident(e):
        c, s = P.COS(e["m"]), P.SIN(e["m"])
        vx, vy = e["v"]
        dot, cr = vx * c + vy * s, vx * s - vy * c
        return [dot * dot + cr * cr == (vx * vx + vy * vy) * (c * c + s * s)]
    run(sess, "LinearVelocityDirectionConstraint",
        lambda e: e["v"][0] * P.SIN(e["m"]) - e["v"][1] * P.COS(e["m"]) == 0, lemmas=ident)


def equalities(sess):
    run(sess, "PoseEqualityConstraint", lambda e: And(
        e["pose"][0] == e["x"], e["pose"][1] == e["y"],
        e["pose"][2] * P.SIN(e["heading"]) == e["pose"][3] * P.COS(e["heading"]),
        e["pose"][2] * e["pose"][2] + e["pose"][3] * e["pose"][3] == 1))
    run(sess, "TranslationEqualityConstraint", lambda e: And(e["pose"][0] == e["x"], e["pose"][1] == e["y"]))

    def at(e):
        dx, dy = e["a"][0] - e["pose"][0], e["a"][1] - e["pose"][1]
        return e["pose"][2] * dx + e["pose"][3] * dy >= P.COS(e["m"]) * P.HYPOT(dx, dy)
    run(sess, "PointAtConstraint", at, lambda e: [e["m"] >= 0, e["m"] <= P.PI])
