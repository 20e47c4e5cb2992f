"""Contracts of SwervePathBuilder."""
import z3
import front
import loops
import types_ as T
import values as V
import prove as P
from values import *
from verify import REPO

SRC = ["src/path/SwervePathBuilder.cpp"]
LIM = 2 ** 30
Q = "trajopt::SwervePathBuilder::"

PRE = """
#include <trajopt/path/SwervePathBuilder.hpp>
namespace trajopt::vc {
inline Constraint mk_pose(double x, double y, double h) { return PoseEqualityConstraint{x, y, h}; }
inline Constraint mk_translation(double x, double y) { return TranslationEqualityConstraint{x, y}; }
inline SwervePathBuilder fresh_builder() { return SwervePathBuilder{}; }
inline Pose2d mk_guess(double x, double y, double h) { return Pose2d{x, y, Rotation2d{h}}; }
inline Constraint mk_pp(const Translation2d& a, const Translation2d& b, double m) { return PointPointConstraint{a, b, m}; }
inline Constraint mk_lp(const Translation2d& a, const Translation2d& b, const Translation2d& c, double m) { return LinePointConstraint{a, b, c, m}; }
inline Constraint mk_pl(const Translation2d& a, const Translation2d& b, const Translation2d& c, double m) { return PointLineConstraint{a, b, c, m}; }
}
"""


def role(sess):
    """names of the private fields, by their types and accessors"""
    rec = sess.prog.records.get("SwervePathBuilder")
    if rec is None:
        raise Unsupported("class SwervePathBuilder not found")
    r = {}
    for f in rec.fields:
        t = sess.prog.ty(rec.ftypes[f]).canon()
        k = {"SwervePath": "path", "vector<Obstacle>": "bumpers",
             "vector<vector<Pose2<double>>>": "guess", "vector<unsigned long>": "counts"}.get(t)
        if k is None or k in r:
            raise Unsupported("unknown state %s of the builder (%s)" % (f, t))
        r[k] = f
    if len(r) != 4:
        raise Unsupported("state of the builder: %s" % r)
    return r


class Builder:
    """a view of a builder value"""

    def __init__(self, ro, v):
        self.v = v
        p = v.f[ro["path"]]
        self.wp = p.f["waypoints"]
        self.drivetrain = p.f["drivetrain"]
        self.callbacks = p.f["callbacks"]
        self.bumpers = v.f[ro["bumpers"]]
        self.guess = v.f[ro["guess"]]
        self.counts = v.f[ro["counts"]]
        self.n = self.wp.size()


def call(S, fn, *args):
    """run a probe of PRE on values"""
    ex = S.ex
    st = S.st.copy()
    f = S.sess.find("trajopt::vc::" + fn)
    ex.muted += 1
    try:
        return ex.rv(st, ex.call(st, f, None, list(args)))
    finally:
        ex.muted -= 1
        ex.cur = S.st


def this_builder(S):
    ro = role(S.sess)
    v = S.ex.fresh(T.parse("SwervePathBuilder"), "self")
    S.ro = ro
    S.old = Builder(ro, v)
    return S.ex.new_cell(S.st, v, "this")


def invariant(S):
    """one guess list per waypoint, none empty"""
    S.assume(S.old.guess.size() == S.old.n, S.old.n <= LIM, S.old.counts.size() <= LIM,
             S.old.bumpers.size() <= LIM, S.old.callbacks.size() <= LIM)
    P.RANGED["self.%s[].size" % S.ro["guess"]] = (1, LIM)
    P.RANGED["self.%s.waypoints[].waypointConstraints.size" % S.ro["path"]] = (0, LIM)
    P.RANGED["self.%s.waypoints[].segmentConstraints.size" % S.ro["path"]] = (0, LIM)


def veq(S, name, a, b):
    S.equal(name, a, b)


def check(S, upto=None, wc=None, sc=None, guess=None, drivetrain=None, callbacks=None,
          bumpers=None, counts=None):
    """the state after a call: grown to contain `upto`, plus the given changes.
    wc/sc(k) -> list of appended constraints; guess(k, oldlist) -> new list"""
    o = S.old
    nw = Builder(S.ro, S.load(S.this))
    n1 = o.n if upto is None else simp(ite(upto + 1 > o.n, upto + 1, o.n))
    S.ob("number of waypoints", nw.n == n1)
    S.ob("number of guess lists", nw.guess.size() == n1)
    k = fresh_int("k")
    zero = call(S, "mk_guess", z3.RealVal(0), z3.RealVal(0), z3.RealVal(0))

    def at(case, hyp, oldw, olds, oldg):
        specials = [("", [])]
        conds = []
        for f in (wc, sc, guess):
            if f is not None:
                conds.append(f(k, oldg)[0])
        cs = []
        for c in conds:
            if not any(c.eq(d) for d in cs):
                cs.append(c)
        combos = [[]]
        for c in cs:
            combos = [x + [c] for x in combos] + [x + [Not(c)] for x in combos]
        for combo in combos:
            if P.check(list(S.st.pc) + hyp + combo, FALSE, 2).ok:
                continue
            with S.given(*(hyp + combo)):
                pick = lambda f: [] if f is None or not any(f(k, oldg)[0].eq(c) for c in combo) else f(k, oldg)[1]
                e = nw.wp.at(k)
                for nm, f, old in (("waypointConstraints", wc, oldw), ("segmentConstraints", sc, olds)):
                    want = old
                    for x in pick(f):
                        want = want.append(x)
                    veq(S, "%s: %s" % (case, nm), e.f[nm], want)
                g = oldg
                if guess is not None and any(guess(k, oldg)[0].eq(c) for c in combo):
                    g = guess(k, oldg)[1]
                veq(S, "%s: guess poses" % case, nw.guess.at(k), g)
    with S.given(k >= 0, k < o.n):
        oe = o.wp.at(k)
        og = o.guess.at(k)
    at("old waypoint", [k >= 0, k < o.n], oe.f["waypointConstraints"], oe.f["segmentConstraints"], og)
    if upto is not None:
        at("new waypoint", [k >= o.n, k < n1], Vec(oe.f["waypointConstraints"].ety), Vec(oe.f["segmentConstraints"].ety),
           Vec(og.ety, (One(zero),)))
    with S.given(k >= 0, k < n1):
        S.ob("invariant: no waypoint is without a guess", nw.guess.at(k).size() >= 1)
    # control interval counts
    if counts is not None:
        veq(S, "control interval counts", nw.counts, counts)
    else:
        first = ite(o.n == 0, ZERO, o.n - 1)
        grown = ZERO if upto is None else simp(ite(upto + 1 > o.n, upto - first, ZERO))
        S.ob("number of control interval counts", nw.counts.size() == o.counts.size() + grown)
        with S.given(k >= 0, k < o.counts.size()):
            S.ob("counts already there stay", nw.counts.at(k) == o.counts.at(k))
        if upto is not None:
            with S.given(k >= o.counts.size(), k < o.counts.size() + grown):
                S.ob("new segments have 40 control intervals", nw.counts.at(k) == 40)
    for nm, now, then, want in (("drivetrain", nw.drivetrain, o.drivetrain, drivetrain),
                                ("callbacks", nw.callbacks, o.callbacks, callbacks),
                                ("bumpers", nw.bumpers, o.bumpers, bumpers)):
        veq(S, nm, now, then if want is None else want)


def idx_pre(*names_idx):
    def pre(S):
        invariant(S)
        for i in names_idx:
            S.assume(S.args[i] <= LIM)
    return pre


def with_last(g, v):
    return g.update(simp(g.size() - 1), v)


def v_constraints(sess):
    def post(S):
        i, c = S.args
        check(S, i, wc=lambda k, g: (k == i, [c]))
    sess.verify(Q + "WptConstraint", post, idx_pre(0), this=this_builder, label="WptConstraint")

    def pre(S):
        invariant(S)
        S.assume(S.args[0] < S.args[1], S.args[1] <= LIM)

    def post(S):
        a, b, c = S.args
        check(S, b, wc=lambda k, g: (And(k >= a, k <= b), [c]), sc=lambda k, g: (And(k > a, k <= b), [c]))
    sess.verify(Q + "SgmtConstraint", post, pre, this=this_builder, label="SgmtConstraint")


def v_wpts(sess):
    def post(S):
        i, x, y, h = S.args
        con = call(S, "mk_pose", x, y, h)
        p = call(S, "mk_guess", x, y, h)
        check(S, i, wc=lambda k, g: (k == i, [con]), guess=lambda k, g: (k == i, with_last(g, p)))
    sess.verify(Q + "PoseWpt", post, idx_pre(0), this=this_builder, label="PoseWpt")

    def post(S):
        i, x, y, h = S.args
        con = call(S, "mk_translation", x, y)
        p = call(S, "mk_guess", x, y, h)
        check(S, i, wc=lambda k, g: (k == i, [con]), guess=lambda k, g: (k == i, with_last(g, p)))
    sess.verify(Q + "TranslationWpt", post, idx_pre(0), this=this_builder, label="TranslationWpt")


def v_guesses(sess):
    def post(S):
        i, p = S.args
        check(S, i, guess=lambda k, g: (k == i, with_last(g, p)))
    sess.verify(Q + "WptInitialGuessPoint", post, idx_pre(0), this=this_builder, label="WptInitialGuessPoint")

    def pre(S):
        invariant(S)
        S.assume(S.args[0] < LIM, S.args[1].size() <= LIM)

    def post(S):
        i, ps = S.args
        to = simp(i + 1)
        check(S, to, guess=lambda k, g: (k == to, ps.concat(g)))
    sess.verify(Q + "SgmtInitialGuessPoints", post, pre, this=this_builder, label="SgmtInitialGuessPoints")


def v_settings(sess):
    def run(name, n, post, ret=None):
        sess.verify(Q + name, post, invariant, this=this_builder, label=name, nparams=n)

    run("SetDrivetrain", 1, lambda S: check(S, drivetrain=S.args[0]))
    run("AddBumpers", 1, lambda S: check(S, bumpers=S.old.bumpers.append(S.args[0])))
    run("ControlIntervalCounts", 1, lambda S: check(S, counts=S.args[0]))
    run("AddIntermediateCallback", 1, lambda S: check(S, callbacks=S.old.callbacks.append(S.args[0])))

    def post(S):
        S.equal("returns the counts", S.ex.rv(S.st, S.ret), S.old.counts)
        check(S)
    run("GetControlIntervalCounts", 0, post)

    def post(S):
        S.equal("returns the path", S.ex.rv(S.st, S.ret), S.old.v.f[S.ro["path"]])
        S.ob("the path is returned by reference", isinstance(S.ret, Ref) and S.ret.cell == S.this.cell
             and S.ret.path == (S.ro["path"],))
        check(S)
    run("GetPath", 0, post)

    def post(S):
        ev = S.st.cells.get("$trace")
        ok = ev is not None and len(ev.items) == 1
        S.ob("computes one guess", ok)
        if ok:
            _, g, nm, args = ev.items[0]
            S.ob("always", g)
            S.equal("from the guess poses", args[0], S.old.guess)
            S.equal("and the control interval counts", args[1], S.old.counts)
            S.ob("and returns it", isinstance(S.ret, Opaque) and S.ret.key == "guess")
        check(S)

    def c_guess(ex, st, this, args, f):
        ex.event(st, "GenerateLinearInitialGuess", [ex.rv(st, a) for a in args])
        return Opaque("guess")
    sess.verify(Q + "CalculateInitialGuess", post, invariant, this=this_builder, label="CalculateInitialGuess",
                contracts={"GenerateLinearInitialGuess": c_guess})


def v_default(sess):
    """the invariant holds for a new builder"""
    def post(S):
        b = Builder(role(sess), S.ret)
        for nm, v in (("waypoints", b.wp), ("guess lists", b.guess), ("counts", b.counts),
                      ("bumpers", b.bumpers), ("callbacks", b.callbacks)):
            S.ob("no %s" % nm, v.size() == 0)
    sess.verify("trajopt::vc::fresh_builder", post, label="SwervePathBuilder()")


# ------------------------------------------------------------- obstacles

def eqf(a, b):
    out = []
    loops.vals_equal(a, b, out, "=")
    fs = [And(*h, g) if False else (g if not h else z3.Implies(And(*h), g)) for _, h, g in out]
    return And(*fs) if fs else TRUE


def uf(t):
    """the application of an uninterpreted function at the root of a leaf"""
    return t.decl().name()


def leaves_of(v):
    out = []
    V.fold_value(v, lambda t, a: out.append(t), None)
    return out


def apps(terms, name):
    seen, out, work = set(), [], list(terms)
    while work:
        t = work.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() and t.decl().name() == name:
                out.append(t.children())
            work.extend(t.children())
    return out


def flatten(items, bound, guard):
    """leaf events: (bound [(J, trip)], guard, name, args)"""
    for it in items:
        if it[0] == "all":
            yield from flatten(it[3], bound + [(it[1], it[2])], guard)
        elif it[0] == "ev":
            yield bound, guard + [it[1]], it[2], it[3]
        else:
            raise Unsupported("trace item " + str(it[0]))


def solutions(term, J, target):
    ab = V.linear_in(term, J)
    if ab is None or abs(ab[0]) != 1:
        return []
    return [simp((target - ab[1]) * ab[0])]


class Obst:
    def __init__(self, S, target):
        self.S, self.target = S, target
        o = S.old
        self.b = fresh_int("b")
        self.obst = S.load(S.args[-1]) if isinstance(S.args[-1], Ref) else S.args[-1]
        probe = o.bumpers.at(fresh_int("q")).f["points"].at(fresh_int("q"))
        self.bx = uf(leaves_of(probe)[0])
        self.ox = uf(leaves_of(self.obst.f["points"].at(fresh_int("q")))[0])
        self.leaves = []
        t = S.st.cells.get("$trace")
        if t is not None:
            if t.base not in (None, "trace"):
                raise Unsupported("trace base")
            self.leaves = list(flatten(t.items, [], []))
        for b_, g, name, args in self.leaves:
            if not isinstance(args[-1], Variant):
                raise Unsupported("constraint argument")

    def bp(self, b, i):
        return self.S.old.bumpers.at(b).f["points"].at(i)

    def nb(self, b):
        return self.S.old.bumpers.at(b).f["points"].size()

    def op(self, j):
        return self.obst.f["points"].at(j)

    def no(self):
        return self.obst.f["points"].size()

    def minimum(self, b):
        return simp(self.S.old.bumpers.at(b).f["safetyDistance"] + self.obst.f["safetyDistance"])

    def cand(self, leaf, idxs):
        """assignments of the bound variables that may hit the wanted indexes"""
        bound, guard, name, args = leaf
        terms = leaves_of(args[-1])
        occ = [a[0] for a in apps(terms, self.bx)], [a[1] for a in apps(terms, self.bx)], \
              [a[0] for a in apps(terms, self.ox)]
        wants = [self.b], idxs[0], idxs[1]
        per = []
        for J, trip in bound:
            c = []
            for os, ws in zip(occ, wants):
                for o in os:
                    if not V.mentions_const(o, J):
                        continue
                    for w in ws:
                        c += solutions(o, J, w)
                        if V.linear_in(o, J) is None:
                            c.append(w)
            if not c:
                c = list(idxs[0]) + list(idxs[1]) + [self.b]
            u = []
            for x in c:
                if not any(x.eq(y) for y in u):
                    u.append(x)
            per.append(u)
        out = [[]]
        for (J, trip), cs in zip(bound, per):
            out = [x + [(J, c)] for x in out for c in cs]
        return out[:400]

    def present(self, wanted, idxs):
        """some event is one of the wanted constraints"""
        alts = []
        for leaf in self.leaves:
            bound, guard, name, args = leaf
            if name != self.target:
                continue
            tag = args[-1].tag
            ws = [w for w in wanted if not (z3.is_int_value(tag) and z3.is_int_value(w.tag)
                                            and tag.as_long() != w.tag.as_long())]
            if not ws:
                continue
            for asg in self.cand(leaf, idxs):
                conds = []
                ok = True
                # inner trip counts may mention outer variables
                for J, trip in bound:
                    j = V.tsub(J, asg)
                    t = V.tsub(trip, asg)
                    conds += [j >= 0, j < t]
                conds += [V.tsub(g, asg) for g in guard]
                cs = simp(And(*conds))
                if z3.is_false(cs):
                    continue
                hit = []
                for w in ws:
                    a = V.subst(args[-1], asg)
                    f = simp(And(*[V.tsub(x, asg) == y for x, y in zip(args[:-1], self.S.args[:-1])], eqf(a, w)))
                    if not z3.is_false(f):
                        hit.append(f)
                if hit:
                    alts.append(And(cs, Or(*hit)))
        return Or(*alts) if alts else FALSE


def obstacle(sess, fn, target, pre0):
    def pre(S):
        invariant(S)
        pre0(S)
        o = S.load(S.args[-1]) if isinstance(S.args[-1], Ref) else S.args[-1]
        n = o.f["points"].size()
        S.assume(n >= 1, n <= LIM)
        q = S.old.bumpers.at(fresh_int("q")).f["points"].size()
        P.RANGED[uf(q)] = (1, LIM)
        P.RANGED[uf(S.old.bumpers.at(fresh_int("q")).f["safetyDistance"])] = (0, None)
        S.assume(o.f["safetyDistance"] >= 0)

    def post(S):
        ob = Obst(S, target)
        o = S.old
        b = ob.b
        cv = lambda fn_, *a: call(S, fn_, *a)
        with S.given(b >= 0, b < o.bumpers.size()):
            n, m, d = ob.nb(b), ob.no(), ob.minimum(b)
            e, f = fresh_int("corner"), fresh_int("edge")
            nxt = lambda t, k: simp(ite(t + 1 == k, ZERO, t + 1))
            # a) bumper edge against obstacle corner
            with S.given(e >= 0, e < n, f >= 0, f < m, n >= 2):
                for nm, h, to in (("edges", [e + 1 < n], simp(e + 1)), ("closing edge", [e + 1 == n], ZERO)):
                    want = [cv("mk_lp", ob.bp(b, e), ob.bp(b, to), ob.op(f), d),
                            cv("mk_lp", ob.bp(b, to), ob.bp(b, e), ob.op(f), d)]
                    S.ob("every bumper's %s keep clear of every obstacle corner" % nm,
                         ob.present(want, ([e, to], [f])), *h)
            # b) bumper corner against obstacle edge
            with S.given(e >= 0, e < n, f >= 0, f < m, m >= 2):
                for nm, h, to in (("edges", [f + 1 < m], simp(f + 1)), ("closing edge", [f + 1 == m], ZERO)):
                    want = [cv("mk_pl", ob.bp(b, e), ob.op(f), ob.op(to), d),
                            cv("mk_pl", ob.bp(b, e), ob.op(to), ob.op(f), d)]
                    S.ob("every bumper corner keeps clear of the obstacle's %s" % nm,
                         ob.present(want, ([e], [f, to])), *h)
            # c) bumper corner against a one-point obstacle
            with S.given(e >= 0, e < n, m == 1):
                S.ob("every bumper corner keeps clear of a one-point obstacle",
                     ob.present([cv("mk_pp", ob.bp(b, e), ob.op(ZERO), d)], ([e], [ZERO])))
        # nothing else is asked for
        for bound, guard, name, args in ob.leaves:
            sub = [(J, fresh_int("i")) for J, _ in bound]
            hyp = []
            for (J, trip), (_, k) in zip(bound, sub):
                hyp += [k >= 0, k < V.tsub(trip, sub)]
            hyp += [V.tsub(g, sub) for g in guard]
            con = V.subst(args[-1], sub)
            al = [V.tsub(a, sub) for a in args[:-1]]
            if name != target:
                S.ob("no other kind of call", FALSE, *hyp)
                continue
            S.ob("only the addressed waypoints", And(*[x == y for x, y in zip(al, S.args[:-1])]), *hyp)
            terms = leaves_of(con)
            ba = apps(terms, ob.bx)
            oa = [a[0] for a in apps(terms, ob.ox)]
            bs, is_ = [], []
            for a in ba:
                if not any(a[0].eq(x) for x in bs):
                    bs.append(a[0])
                if not any(a[1].eq(x) for x in is_):
                    is_.append(a[1])
            js = []
            for a in oa:
                if not any(a.eq(x) for x in js):
                    js.append(a)
            alts = []
            for bb in bs:
                nbb, d = ob.nb(bb), ob.minimum(bb)
                base = [bb >= 0, bb < o.bumpers.size()]
                inb = lambda i: And(i >= 0, i < nbb)
                ino = lambda j: And(j >= 0, j < ob.no())
                adj = lambda i, k, n_: And(n_ >= 2, Or(k == i + 1, And(i + 1 == n_, k == 0)))
                for i in is_:
                    for j in js:
                        alts.append(And(*base, inb(i), ino(j), eqf(con, cv("mk_pp", ob.bp(bb, i), ob.op(j), d))))
                        for i2 in is_:
                            alts.append(And(*base, inb(i), inb(i2), ino(j), Or(adj(i, i2, nbb), adj(i2, i, nbb)),
                                            eqf(con, cv("mk_lp", ob.bp(bb, i), ob.bp(bb, i2), ob.op(j), d))))
                        for j2 in js:
                            alts.append(And(*base, inb(i), ino(j), ino(j2), Or(adj(j, j2, ob.no()), adj(j2, j, ob.no())),
                                            eqf(con, cv("mk_pl", ob.bp(bb, i), ob.op(j), ob.op(j2), d))))
            S.ob("only distances between a bumper's and the obstacle's outline", Or(*alts) if alts else FALSE, *hyp)
        veq(S, "the builder is changed by those calls only", S.load(S.this), o.v)

    def ghost(name):
        def c(ex, st, this, args, f):
            vals = [ex.rv(st, a) for a in args]
            if not (isinstance(this, Ref) and this.cell.startswith("this") and not this.path):
                raise Unsupported("call on another builder")
            ex.event(st, name, vals)
            return None
        return c
    sess.verify(Q + fn, post, pre, this=this_builder, label=fn,
                contracts={"SwervePathBuilder::" + n: ghost(n) for n in ("WptConstraint", "SgmtConstraint")})


def v_wptobstacle(sess):
    obstacle(sess, "WptObstacle", "WptConstraint", lambda S: S.assume(S.args[0] <= LIM))


def v_sgmtobstacle(sess):
    obstacle(sess, "SgmtObstacle", "SgmtConstraint", lambda S: S.assume(S.args[0] < S.args[1], S.args[1] <= LIM))
