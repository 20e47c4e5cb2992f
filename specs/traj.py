"""Contracts of the trajectory types."""
import z3
from values import *
import values as V
import prove as P
from front import params_of

SCAL = [("timestamp", None), ("x", "x"), ("y", "y"), ("velocityX", "vx"), ("velocityY", "vy"),
        ("angularVelocity", "omega")]


def v_from_solution(sess):
    def pre(S):
        sol = S.args[0]
        n = sol.f["x"].size()
        S.assume(n <= 2 ** 40)
        for k in ("y", "thetacos", "thetasin", "vx", "vy", "omega", "moduleFX", "moduleFY"):
            S.assume(sol.f[k].size() >= n)
        S.assume(sol.f["dt"].size() >= n - 1)

    def post(S):
        sol = S.args[0]
        out = S.ret.f["samples"]
        n = sol.f["x"].size()
        S.ob("one sample per solution sample", out.size() == n)
        k = fresh_int("k")
        with S.given(k >= 0, k < n):
            e = out.at(k)
            J = fresh_int("j")
            S.ob("timestamp is the sum of the preceding time steps",
                 e.f["timestamp"] == V.sum_term(sol.f["dt"].at(J), J, k))
            for a, b in SCAL[1:]:
                S.ob("%s is copied" % a, e.f[a] == sol.f[b].at(k))
            h = e.f["heading"]
            c, s_ = sol.f["thetacos"].at(k), sol.f["thetasin"].at(k)
            m = P.HYPOT(c, s_)
            S.ob("heading has the direction of (cos, sin)",
                 And(m * P.COS(h) == c, m * P.SIN(h) == s_), m >= 0, m * m == c * c + s_ * s_)
            S.ob("heading is in (-pi, pi]", And(h > -P.PI, h <= P.PI))
            for a, b in (("moduleForcesX", "moduleFX"), ("moduleForcesY", "moduleFY")):
                S.equal("%s are copied" % a, e.f[a], sol.f[b].at(k))
    sess.verify("trajopt::HolonomicTrajectory::HolonomicTrajectory", post, pre,
                label="HolonomicTrajectory(SwerveSolution)",
                pred=lambda f: len(params_of(f)) == 1 and "SwerveSolution" in f["type"]["qualType"])


def v_from_samples(sess):
    def post(S):
        S.equal("the samples are kept", S.ret.f["samples"], S.args[0])
    sess.verify("trajopt::HolonomicTrajectory::HolonomicTrajectory", post,
                label="HolonomicTrajectory(samples)",
                pred=lambda f: len(params_of(f)) == 1 and "vector" in f["type"]["qualType"])


FIELDS = ["timestamp", "x", "y", "heading", "velocityX", "velocityY", "angularVelocity",
          "moduleForcesX", "moduleForcesY"]


def v_sample(sess, n):
    def post(S):
        for i, f in enumerate(FIELDS):
            if i < n:
                S.equal("%s is argument %d" % (f, i), S.ret.f[f], S.args[i])
            else:
                S.ob("%s is empty" % f, S.ret.f[f].size() == 0)
    sess.verify("trajopt::HolonomicTrajectorySample::HolonomicTrajectorySample", post,
                label="HolonomicTrajectorySample/%d" % n, nparams=n)
