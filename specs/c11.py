"""Geometry: one table of operations generates both the deductive probes and
the runtime harness.  A probe calls the real operation and returns its result."""
import os
import z3
import verify
import prove as P
import values as V
from values import *

HARNESS = "c11.cpp"
TRUST = ["assumed interface of sleipnir::Variable (shim/sleipnir): arithmetic, sin, cos, hypot, atan2 with real semantics"]
ASSUMPTIONS = ["rotations given as arguments are unit vectors where the property speaks of angles"]

CT = {"T": "Translation2", "R": "Rotation2", "P": "Pose2"}


def cty(t):
    b = "double" if t[1] == "d" else "sleipnir::Variable"
    return b if t[0] == "s" else "%s<%s>" % (CT[t[0]], b)


def rows():
    """(name, [(param, type)], expression, result kind, [(op, lhs, rhs)])"""
    out = []
    both = [("d", "d"), ("d", "v"), ("v", "d"), ("v", "v")]
    for x, y in both:
        a, b = ("a", "T" + x), ("b", "T" + y)
        r = ("q", "R" + y)
        s = ("s", "s" + y)
        n = "_" + x + y
        out += [
            ("add" + n, [a, b], "a + b", "T", [("=", "rx", "ax + bx"), ("=", "ry", "ay + by")]),
            ("sub" + n, [a, b], "a - b", "T", [("=", "rx", "ax - bx"), ("=", "ry", "ay - by")]),
            ("scale" + n, [a, s], "a * s", "T", [("=", "rx", "ax * s"), ("=", "ry", "ay * s")]),
            ("divide" + n, [a, s], "a / s", "T", [("=", "rx * s", "ax"), ("=", "ry * s", "ay")], ["s != 0"]),
            ("rotate" + n, [a, r], "a.RotateBy(q)", "T",
             [("=", "rx", "ax * qc - ay * qs"), ("=", "ry", "ax * qs + ay * qc")]),
            ("unrotate" + n, [a, r], "a.RotateBy(q).RotateBy(-q)", "T", [("=", "rx", "ax"), ("=", "ry", "ay")], ["unit(q)"]),
            ("dot" + n, [a, b], "a.Dot(b)", "s", [("=", "r", "ax * bx + ay * by")]),
            ("cross" + n, [a, b], "a.Cross(b)", "s", [("=", "r", "ax * by - ay * bx")]),
            ("distance" + n, [a, b], "a.Distance(b)", "s",
             [("=", "r * r", "(ax - bx) * (ax - bx) + (ay - by) * (ay - by)"), (">=", "r", "0")]),
            ("compose" + n, [("p", "R" + x), r], "p.RotateBy(q)", "R",
             [("=", "rc", "pc * qc - ps * qs"), ("=", "rs", "ps * qc + pc * qs")]),
        ]
        if x == y:
            p = ("p", "R" + x)
            w = ("w", "P" + x)
            t = ("t", "s" + x)
            out += [
                ("negate" + n, [a], "-a", "T", [("=", "rx", "-ax"), ("=", "ry", "-ay")]),
                ("norm" + n, [a], "a.Norm()", "s", [("=", "r * r", "ax * ax + ay * ay"), (">=", "r", "0")]),
                ("sqnorm" + n, [a], "a.SquaredNorm()", "s", [("=", "r", "ax * ax + ay * ay")]),
                ("get0" + n, [a], "get<0>(a)", "s", [("=", "r", "ax")]),
                ("get1" + n, [a], "get<1>(a)", "s", [("=", "r", "ay")]),
                ("angle" + n, [a], "a.Angle().Radians()", "s",
                 [("=", "HYP(ax, ay) * COS(r)", "ax"), ("=", "HYP(ax, ay) * SIN(r)", "ay")]),
                ("polar" + n, [("s", "s" + x), r], "Translation2<%s>{s, q}" % cty("s" + x), "T",
                 [("=", "rx", "s * qc"), ("=", "ry", "s * qs")]),
                ("cartesian" + n, [("s", "s" + x), t], "Translation2<%s>{s, t}" % cty("s" + x), "T",
                 [("=", "rx", "s"), ("=", "ry", "t")]),
                ("fromangle" + n, [t], "Rotation2<%s>{t}" % cty("s" + x), "R",
                 [("=", "rc", "COS(t)"), ("=", "rs", "SIN(t)")]),
                ("fromcomponents" + n, [("s", "s" + x), t], "Rotation2<%s>{s, t}" % cty("s" + x), "R",
                 [("=", "rc", "s"), ("=", "rs", "t")]),
                ("radians" + n, [p], "p.Radians()", "s",
                 [("=", "COS(r)", "pc"), ("=", "SIN(r)", "ps"), ("<=", "r", "PI"), (">=", "r", "-PI")], ["unit(p)"]),
                ("degrees" + n, [p], "p.Degrees()", "s",
                 [("=", "COS(r / 180 * PI)", "pc"), ("=", "SIN(r / 180 * PI)", "ps"), ("<=", "r", "180"), (">=", "r", "-180")], ["unit(p)"]),
                ("plus" + n, [p, r], "p + q", "R", [("=", "rc", "pc * qc - ps * qs"), ("=", "rs", "ps * qc + pc * qs")]),
                ("minus" + n, [p, r], "p - q", "R", [("=", "rc", "pc * qc + ps * qs"), ("=", "rs", "ps * qc - pc * qs")]),
                ("inverse" + n, [p], "-p", "R", [("=", "rc", "pc"), ("=", "rs", "-ps")]),
                ("cancel" + n, [p, r], "(p + q) - q", "R", [("=", "rc", "pc"), ("=", "rs", "ps")], ["unit(q)"]),
                ("pose" + n, [a, r], "Pose2<%s>{a, q}" % cty("s" + x), "P",
                 [("=", "rx", "ax"), ("=", "ry", "ay"), ("=", "rc", "qc"), ("=", "rs", "qs")]),
                ("posexy" + n, [("s", "s" + x), t, r], "Pose2<%s>{s, t, q}" % cty("s" + x), "P",
                 [("=", "rx", "s"), ("=", "ry", "t"), ("=", "rc", "qc"), ("=", "rs", "qs")]),
                ("posex" + n, [w], "w.X()", "s", [("=", "r", "wx")]),
                ("posey" + n, [w], "w.Y()", "s", [("=", "r", "wy")]),
                ("poserotate" + n, [w, r], "w.RotateBy(q)", "P",
                 [("=", "rx", "wx * qc - wy * qs"), ("=", "ry", "wx * qs + wy * qc"),
                  ("=", "rc", "wc * qc - ws * qs"), ("=", "rs", "ws * qc + wc * qs")]),
            ]
        # conversions between coordinate types
        if (x, y) != ("v", "d"):
            y_ = cty("s" + y)
            out += [
                ("convT" + n, [a], "Translation2<%s>{a}" % y_, "T", [("=", "rx", "ax"), ("=", "ry", "ay")]),
                ("convR" + n, [("p", "R" + x)], "Rotation2<%s>{p}" % y_, "R", [("=", "rc", "pc"), ("=", "rs", "ps")]),
                ("convP" + n, [("w", "P" + x)], "Pose2<%s>{w}" % y_, "P",
                 [("=", "rx", "wx"), ("=", "ry", "wy"), ("=", "rc", "wc"), ("=", "rs", "ws")]),
            ]
        if (x, y) != ("d", "d"):
            pq = [("p", "R" + x), r]
            unitp = ["unit(%s)" % nm for nm, t in pq if t[1] == "d"]
            req = " and ".join(["eq(pc * qs, ps * qc)"] + ["unit(%s)" % nm for nm, t in pq if t[1] == "v"])
            uv = [("u", "P" + x), ("w", "P" + y)]
            unitw = ["unit(%s)" % nm for nm, t in uv if t[1] == "d"]
            weq = " and ".join(["eq(ux, wx)", "eq(uy, wy)", "eq(uc * ws, us * wc)"] +
                               ["unit(%s)" % nm for nm, t in uv if t[1] == "v"])
            out += [
                ("equalT" + n, [a, b], "a == b", "C", [("iff", "r", "eq(ax, bx) and eq(ay, by)")]),
                ("equalR" + n, pq, "p == q", "C", [("iff", "r", req)], unitp),
                ("equalP" + n, uv, "u == w", "C", [("iff", "r", weq)], unitw),
            ]
    out += [("default_T", [], "Translation2<double>{}", "T", [("=", "rx", "0"), ("=", "ry", "0")]),
            ("default_R", [], "Rotation2<double>{}", "R", [("=", "rc", "1"), ("=", "rs", "0")]),
            ("default_P", [], "Pose2<double>{}", "P", [("=", "rx", "0"), ("=", "ry", "0"), ("=", "rc", "1"), ("=", "rs", "0")]),
            ("default_Tv", [], "Translation2<sleipnir::Variable>{}", "T", [("=", "rx", "0"), ("=", "ry", "0")]),
            ("default_Rv", [], "Rotation2<sleipnir::Variable>{}", "R", [("=", "rc", "1"), ("=", "rs", "0")])]
    return [r if len(r) == 6 else r + ([],) for r in out]


def probes():
    o = ["#include <trajopt/geometry/Pose2.hpp>", "namespace trajopt::vc {"]
    for name, ps, e, kind, post, pre in rows():
        o.append("inline auto probe_%s(%s) { return %s; }" % (
            name, ", ".join("const %s& %s" % (cty(t), n) for n, t in ps), e))
    o.append("}\n")
    return "\n".join(o)


def den(v):
    return v.den if isinstance(v, SVar) else v


def observe(S, v, nm, kind):
    if kind == "s":
        return {nm: den(v)}
    m = lambda u, a: den(S.method(u, a))
    if kind == "T":
        return {nm + "x": m(v, "X"), nm + "y": m(v, "Y")}
    if kind == "R":
        return {nm + "c": m(v, "Cos"), nm + "s": m(v, "Sin")}
    t, r = S.method(v, "Translation"), S.method(v, "Rotation")
    return {nm + "x": m(t, "X"), nm + "y": m(t, "Y"), nm + "c": m(r, "Cos"), nm + "s": m(r, "Sin")}


def verify_row(sess, row):
    name, ps, e, kind, post, pre = row

    def env(S):
        d = {"COS": P.COS, "SIN": P.SIN, "HYP": P.HYPOT, "PI": P.PI}
        for (n, t), a in zip(ps, S.args):
            d.update(observe(S, a, n, t[0]))
        return d

    def pred(s, d):
        out = []
        for c in s.split(" and "):
            if c.startswith("unit("):
                n = c[5:-1]
                out.append(d[n + "c"] * d[n + "c"] + d[n + "s"] * d[n + "s"] == 1)
            elif c.startswith("eq("):
                # eq(u, v) at top level
                u, v = c[3:-1].split(", ")
                out.append(eval(u, {}, d) == eval(v, {}, d))
            else:
                out.append(eval(c, {}, d))
        return And(*out)

    def pre_(S):
        d = env(S)
        for c in pre:
            S.assume(pred(c, d))

    def post_(S):
        d = env(S)
        if kind == "C":
            d["r"] = None
        else:
            d.update(observe(S, S.ret, "r", kind))
        for op, l, r in post:
            if op == "iff":
                import loops
                have = And(*[Implies(it[1], it[3] == 0) for it in S.ret.items])
                want = pred(r, d)
                S.ob("the relation implies " + r, Implies(have, want))
                S.ob("the relation follows from " + r, Implies(want, have))
                continue
            lv, rv = eval(l, {}, d), eval(r, {}, d)
            if op == "=" and l.startswith("HYP"):
                S.ob("%s = %s" % (l, r), lv == rv)
            else:
                S.ob("%s %s %s" % (l, op, r), lv == rv if op == "=" else (lv <= rv if op == "<=" else lv >= rv))
    sess.verify("trajopt::vc::probe_" + name, post_, pre_, label=e + "  [" + ", ".join("%s:%s" % (n, cty(t).replace("sleipnir::", "")) for n, t in ps) + "]")


def deductive(thorough):
    s = verify.Session((), (), pre=probes())
    for r in rows():
        verify_row(s, r)
    return [s]


def prepare(work, repo):
    o = ["// generated from specs/c11.py"]
    nrow = 0
    for name, ps, e, kind, post, pre in rows():
        o.append("{ c.in(\"%s \");" % name.replace('"', ""))
        unit = {p[5:-1] for p in pre if p.startswith("unit(")}
        names = []
        for n, t in ps:
            names.append(n)
            o.append("  auto %s = mk_%s(c, \"%s\"%s);" % (n, t[0] + t[1], n, ", shared" if t[0] != "s" else ""))
            if t[0] == "s":
                o.append("  double %s_ = val(%s);" % (n, n))
            if t[0] in "TP":
                tr = n if t[0] == "T" else n + ".Translation()"
                o.append("  double %sx = val(%s.X()), %sy = val(%s.Y());" % (n, tr, n, tr))
            if t[0] in "RP":
                rr = n if t[0] == "R" else n + ".Rotation()"
                o.append("  double %sc = val(%s.Cos()), %ss = val(%s.Sin());" % (n, rr, n, rr))
        ex = e
        for n, t in ps:
            if t[0] == "s":
                pass
        o.append("  auto r_ = [&] { return %s; }();" % ex)
        if kind == "s":
            o.append("  double r = val(r_);")
        elif kind == "C":
            o.append("  bool r = holds(r_);")
        if kind in "TP":
            tr = "r_" if kind == "T" else "r_.Translation()"
            o.append("  double rx = val(%s.X()), ry = val(%s.Y());" % (tr, tr))
        if kind in "RP":
            rr = "r_" if kind == "R" else "r_.Rotation()"
            o.append("  double rc = val(%s.Cos()), rs = val(%s.Sin());" % (rr, rr))
        guard = [p for p in pre if not p.startswith("unit(")]
        if guard:
            o.append("  if (%s) {" % " && ".join("s_ != 0 && std::abs(s_) > 1e-9" for p in guard))
        for op, l, r in post:
            cl, cr = l, r
            for n, t in ps:
                if t[0] == "s":
                    import re
                    cl = re.sub(r"\b%s\b" % n, n + "_", cl)
                    cr = re.sub(r"\b%s\b" % n, n + "_", cr)
            if op == "iff":
                cr = cr.replace(" and ", " && ")
                import re
                cr = re.sub(r"unit\((\w+)\)", r"unit(\1c, \1s)", cr)
                o.append("  c.expect(r == (%s), \"%s: relation is \", r, \" but should be \", !r);" % (cr, e))
            elif op == "=":
                o.append("  c.near(%s, %s, 1e4, \"%s: %s\");" % (cl, cr, e, l))
            else:
                o.append("  c.expect(%s %s (%s) %s 1e-9, \"%s: %s %s %s fails\");" % (cl, op, cr, "+" if op == "<=" else "-", e, l, op, r))
        if guard:
            o.append("  }")
        o.append("}")
        nrow += 1
    with open(os.path.join(work, "c11_rows.inc"), "w") as f:
        f.write("\n".join(o) + "\n")
    return []
