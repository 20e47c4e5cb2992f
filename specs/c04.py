import z3
import verify
import util
from util import prefix, WRAP, LIM
from values import *
import values as V
import prove as P

HARNESS = "c04.cpp"
SECONDS = 25


def v_guess(sess):
    def pre(S):
        pts, N = S.args
        J = fresh_int("j")
        S.assume(pts.size() == N.size() + 1, N.size() <= 2 ** 30,
                 V.sum_term(N.at(J), J, N.size()) <= 2 ** 40)
        # every waypoint has at least one guess point
        P.RANGED["arg0[].size"] = (1, 2 ** 30)
        P.RANGED["arg1[]"] = (0, 2 ** 40)

    def post(S):
        pts, N = S.args
        sol = S.ret
        total = simp(1 + prefix(N, N.size()))
        for f in ("x", "y", "thetacos", "thetasin", "dt"):
            S.ob("%s has one entry per sample" % f, sol.f[f].size() == total)
        # time steps
        k = fresh_int("k")
        with S.given(k >= 0, k < total):
            S.ob("time steps are positive", sol.f["dt"].at(k) > 0)

        def obs(p):
            rot = S.method(p, "Rotation")
            return dict(x=S.method(p, "X"), y=S.method(p, "Y"),
                        cos=S.method(rot, "Cos"), sin=S.method(rot, "Sin"),
                        ang=S.method(rot, "Radians"))
        first = obs(pts.at(ZERO).at(ZERO))
        S.ob("starts at the first guess point (x)", sol.f["x"].at(ZERO) == first["x"])
        S.ob("starts at the first guess point (y)", sol.f["y"].at(ZERO) == first["y"])
        S.ob("starts at the first guess point (cos)", sol.f["thetacos"].at(ZERO) == first["cos"])
        S.ob("starts at the first guess point (sin)", sol.f["thetasin"].at(ZERO) == first["sin"])
        s, g, i = fresh_int("s"), fresh_int("g"), fresh_int("i")
        m = pts.at(simp(s + 1)).size()
        Ns = N.at(s)
        q = Ns / m
        base = simp(1 + prefix(N, s))
        hyp0 = [s >= 0, s < N.size(), i >= 0, m >= 1, pts.at(s).size() >= 1]
        lem = [q * m <= Ns, q >= 0, q * m >= q]

        def segment(case, hyp, n, fr, to, off, facts=()):
            """samples base+off .. base+off+n-1 interpolate from fr to to"""
            with S.given(*(hyp0 + hyp)):
                for l in lem + list(facts):
                    S.ob("%s: lemma on the interval split" % case, l)
            with S.given(*(hyp0 + hyp + lem + list(facts))):
                fr, to = obs(fr()), obs(to())
                t = z3.ToReal(i + 1) / z3.ToReal(n)
                pos = simp(base + off + i)
                for f, k in (("x", "x"), ("y", "y")):
                    S.ob("%s: %s is interpolated between the guess points" % (case, f),
                         sol.f[f].at(pos) == fr[k] + t * (to[k] - fr[k]))
                th = fr["ang"] + t * WRAP(fr["ang"], to["ang"])
                S.ob("%s: heading cosine turns the short way" % case, sol.f["thetacos"].at(pos) == P.COS(th))
                S.ob("%s: heading sine turns the short way" % case, sol.f["thetasin"].at(pos) == P.SIN(th))
        last = lambda: pts.at(s).at(simp(pts.at(s).size() - 1))
        pt = lambda j: (lambda: pts.at(simp(s + 1)).at(simp(j)))
        segment("first guess point", [m > 1, i < q], q, last, pt(ZERO), ZERO)
        segment("single guess point", [m == 1, i < Ns], Ns, last, pt(ZERO), ZERO)
        segment("middle guess point", [g > 0, g < m - 1, i < q],
                q, pt(g - 1), pt(g), g * q, [(g - 1) * q >= 0, g * q + q <= m * q - q])
        segment("last guess point", [m > 1, i < Ns - (m - 1) * q], simp(Ns - (m - 1) * q),
                pt(m - 2), pt(m - 1), (m - 1) * q)

    sess.verify("trajopt::GenerateLinearInitialGuess", post, pre, label="GenerateLinearInitialGuess",
                contracts=util.CONTRACTS, budget=200)


def deductive(thorough):
    s = verify.Session((), (), pre=verify.GEN_PRE)
    util.v_GetIndex(s)
    util.v_Linspace(s)
    util.v_AngleLinspace(s)
    v_guess(s)
    return [s]
