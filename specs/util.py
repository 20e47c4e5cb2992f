"""Contracts of the helper functions of TrajoptUtil.hpp."""
import z3
from values import *
import values as V
import prove as P

LIM = 2 ** 60


# ---------------------------------------------------------- spec functions

def prefix(N, k):
    """Sum_{j<k} N[j]"""
    J = fresh_int("j")
    return V.sum_term(N.at(J), J, k)


def spec_index(N, w, s):
    """1 + sum of the control intervals of the segments before waypoint w + s"""
    return simp(ite(w > 0, 1 + prefix(N, simp(w - 1)), ZERO) + s)


def linspace(a, b, n):
    J = fresh_int("j")
    return Vec("double", (Sym(n, J, simp(a + z3.ToReal(J + 1) * (b - a) / z3.ToReal(n))),))


# --------------------------------------------------- contracts at call sites

def c_GetIndex(ex, st, this, args, f):
    from front import params_of
    N = ex.rv(st, args[0])
    w = ex.rv(st, args[1])
    s = ex.rv(st, args[2]) if len(args) > 2 else ZERO
    if not isinstance(N, Vec):
        return NotImplemented
    ex.ob(st, "precondition of GetIndex: waypoint exists", w <= N.size() + 1)
    r = spec_index(N, w, s)
    ex.ob(st, "precondition of GetIndex: no overflow", And(r >= 0, r <= LIM * 2))
    return r


def c_Linspace(ex, st, this, args, f):
    a, b, n = [ex.rv(st, x) for x in args]
    ex.ob(st, "precondition of Linspace", n <= LIM)
    return linspace(a, b, n)


WRAP = z3.Function("angle_diff", R, R, R)


def wrap_facts(a, b):
    d = WRAP(a, b)
    return And(d >= -P.PI, d <= P.PI, P.ISINT((b - a - d) / (2 * P.PI)))


def c_AngleLinspace(ex, st, this, args, f):
    a, b, n = [ex.rv(st, x) for x in args]
    ex.ob(st, "precondition of AngleLinspace", n <= LIM)
    d = WRAP(a, b)
    J = fresh_int("j")
    return Vec("double", (Sym(n, J, simp(a + z3.ToReal(J + 1) * d / z3.ToReal(n))),))


CONTRACTS = {"GetIndex": c_GetIndex, "Linspace": c_Linspace, "AngleLinspace": c_AngleLinspace}

# ------------------------------------------------------------ definitions


def v_GetIndex(sess):
    def pre(S):
        N, w, s = S.args
        S.assume(w <= N.size() + 1, s <= LIM)
        # the total number of samples is a size: bounded
        J = fresh_int("j")
        S.assume(V.sum_term(N.at(J), J, N.size()) <= LIM)

    def post(S):
        N, w, s = S.args
        S.ob("index = samples before the waypoint + sample", S.ret == spec_index(N, w, s))
        from front import params_of
        ps = params_of(sess.find("trajopt::GetIndex"))
        init = S.ex.init_of(ps[2]) if len(ps) == 3 else None
        if init is not None:
            S.ob("the sample is the first one unless asked for another", S.ex.rv(S.st, S.ex.eval(S.st, init)) == 0)
    sess.verify("trajopt::GetIndex", post, pre, label="GetIndex")


def v_Linspace(sess):
    def pre(S):
        S.assume(S.args[2] <= LIM)

    def post(S):
        a, b, n = S.args
        S.ob("one value per sample", S.ret.size() == n)
        i = fresh_int("i")
        with S.given(i >= 0, i < n):
            S.ob("value i is start + (i+1)/n (end-start)",
                 S.ret.at(i) * z3.ToReal(n) == a * z3.ToReal(n) + z3.ToReal(i + 1) * (b - a))
        with S.given(n > 0):
            S.ob("last value is the end value", S.ret.at(simp(n - 1)) == b)
    sess.verify("trajopt::Linspace", post, pre, label="Linspace")


def v_AngleLinspace(sess):
    def pre(S):
        S.assume(S.args[2] <= LIM)

    def post(S):
        a, b, n = S.args
        S.ob("one value per sample", S.ret.size() == n)
        with S.given(n > 0):
            last = S.ret.at(simp(n - 1))
            d = simp(last - a)
            S.ob("turns by at most half a turn (counterclockwise)", d <= P.PI)
            S.ob("turns by at most half a turn (clockwise)", d >= -P.PI)
            S.ob("ends at the end angle modulo a full turn", P.ISINT((b - a - d) / (2 * P.PI)))
            i = fresh_int("i")
            with S.given(n > 0, i >= 0, i < n):
                S.ob("values are evenly spaced",
                     (S.ret.at(i) - a) * z3.ToReal(n) == z3.ToReal(i + 1) * d)
    sess.verify("trajopt::AngleLinspace", post, pre, label="AngleLinspace",
                contracts={"Linspace": c_Linspace})
