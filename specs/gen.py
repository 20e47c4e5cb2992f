"""Contracts of SwerveTrajectoryGenerator."""
import itertools
import re
import z3
import front
import loops
import types_ as T
import values as V
import prove as P
import lib as L
import util
from values import *

SRC = ["src/SwerveTrajectoryGenerator.cpp", "src/path/SwervePathBuilder.cpp", "src/util/Cancellation.cpp"]
Q = "trajopt::SwerveTrajectoryGenerator::"
LIM = 2 ** 30
STATE = ["x", "y", "thetacos", "thetasin", "vx", "vy", "omega", "ax", "ay", "alpha"]
CONS = ["AngularVelocityMaxMagnitude", "LinearAccelerationMaxMagnitude", "LinearVelocityDirection",
        "LinearVelocityMaxMagnitude", "LinePoint", "PointAt", "PointLine", "PointPoint", "PoseEquality",
        "TranslationEquality"]

TRUST = ["assumed interface of sleipnir (shim/sleipnir): DecisionVariable, SubjectTo, Minimize, Callback, Solve, SetValue, Value"]
ASSUME = ["the path has a segment per control interval count and a waypoint for each end of a segment (what the builder keeps, C05), every count is at least 1, sizes are at most 2^30 and samples at most 2^40",
          "floating-point arithmetic is treated as real arithmetic, inputs are finite"]


def ghost_apply(own):
    def c(ex, st, this, args, f):
        a = args[0]
        ok = isinstance(a, Ref) and a.path and a.path[-1] == own
        ex.ob(st, "constraints are given the generator's own problem", TRUE if ok else FALSE)
        ex.event(st, "Apply", [ex.rv(st, this)] + [ex.rv(st, x) for x in args[1:]])
        return None
    return c


def contracts(sess, inline_guess=False):
    ct = {"SwervePathBuilder::CalculateInitialGuess":
          lambda ex, st, this, args, f: ex.fresh(T.parse("SwerveSolution"), "guess")}
    if not inline_guess:
        ct["SwerveTrajectoryGenerator::ApplyInitialGuess"] = \
            lambda ex, st, this, args, f: ex.event(st, "ApplyInitialGuess", [ex.rv(st, args[0])])
    own = field_of_type(sess, "OptimizationProblem")
    for c in CONS:
        ct[c + "Constraint::Apply"] = ghost_apply(own)
    return ct


def field_of_type(sess, name):
    rec = sess.prog.records.get("SwerveTrajectoryGenerator")
    if rec is None:
        raise Unsupported("class SwerveTrajectoryGenerator not found")
    fs = [f for f in rec.fields if sess.prog.ty(rec.ftypes[f]).canon() == name]
    if len(fs) != 1:
        raise Unsupported("no single member of type " + name)
    return fs[0]


VARS = STATE + ["dt"]
FORCES = ["Fx", "Fy"]


def members(prog):
    """{role: member}: the generator's variables by name; members that were
    renamed by their type and the order of their declarations"""
    rec = prog.records.get("SwerveTrajectoryGenerator")
    if rec is None:
        raise Unsupported("class SwerveTrajectoryGenerator not found")
    out = {}
    for want, ty in ((VARS, "vector<Variable>"), (FORCES, "vector<vector<Variable>>")):
        have = [f for f in rec.fields if prog.ty(rec.ftypes[f]).canon() == ty]
        if len(have) != len(want):
            raise Unsupported("members of type %s of the generator: %s" % (ty, have))
        plain = {re.sub(r"^m_|^_+|_+$", "", f): f for f in have}
        for w in want:
            if w in plain:
                out[w] = plain[w]
        left = [f for f in have if f not in out.values()]
        out.update(zip([w for w in want if w not in out], left))
    return out


class Gen:
    """the problem a generator has built, seen through its members"""

    def __init__(self, S, builder, path=None):
        self.S = S
        p = path if path is not None else builder["path"]
        self.wp = p.f["waypoints"]
        self.drv = p.f["drivetrain"]
        self.mods = self.drv.f["modules"]
        self.counts = builder["counts"]
        self.n = self.counts.size()
        self.m = self.mods.size()
        self.total = simp(1 + self.prefix(self.n))

    def prefix(self, k):
        J = fresh_int("j")
        return V.sum_term(self.counts.at(J), J, k)

    def see(self, g):
        ro = members(self.S.sess.prog)
        for f, k in ro.items():
            if not isinstance(g.f.get(k), Vec):
                raise Unsupported("no member %s of the generator" % k)
        self.g = Struct(g.ty, {f: g.f[k] for f, k in ro.items()})
        pr = [v for v in g.f.values() if isinstance(v, Struct) and v.ty == "OptimizationProblem"]
        self.problem = pr[0]

    def var(self, name, p):
        v = self.g.f[name].at(p)
        if not isinstance(v, SVar):
            raise Unsupported("member %s holds no variables" % name)
        return v.den

    def force(self, name, p, m):
        v = self.g.f[name].at(p)
        return v.at(m).den


def ctor(sess, post, label, inline_guess=False, extra_pre=None, more=None):
    ct = contracts(sess, inline_guess)
    ct.update(more or {})
    holder = {}

    def pre(S):
        import path as PP
        ro = PP.role(sess)
        b = S.args[0]
        G = Gen(S, dict(path=b.f[ro["path"]], counts=b.f[ro["counts"]]))
        holder["G"] = G
        S.assume(G.n <= LIM, G.wp.size() >= G.n + 1, G.wp.size() <= LIM, G.m <= LIM, G.total <= 2 ** 40)
        pth = "arg0." + ro["path"]
        P.RANGED["arg0.%s[]" % ro["counts"]] = (1, LIM)
        for k in ("waypointConstraints", "segmentConstraints"):
            P.RANGED["%s.waypoints[].%s.size" % (pth, k)] = (0, LIM)
        if extra_pre:
            extra_pre(S, G, pth)

    def post2(S):
        G = holder["G"]
        G.S = S
        G.see(S.ret)
        for f in STATE + ["Fx", "Fy"]:
            S.ob("one %s per sample" % f, G.g.f[f].size() == G.total)
        S.ob("one time step per segment", G.g.f["dt"].size() == G.n)
        post(S, G)
    sess.verify(Q + "SwerveTrajectoryGenerator", post2, pre, contracts=ct, label=label, budget=400)


# ------------------------------------------------------------ constraint logs

class Leaf:
    def __init__(self, binders, guards, item):
        self.binders = binders      # [(J, K)]
        self.guards = guards
        self.item = item

    def inst(self, terms):
        """-> (side conditions, item) for binder values `terms`"""
        pairs = [(J, t) for (J, _), t in zip(self.binders, terms)]
        cs = []
        for n, ((J, K), t) in enumerate(zip(self.binders, terms)):
            k = V.tsub(K, pairs[:n])
            cs += [t >= 0, t < k]
        cs += [V.tsub(g, pairs) for g in self.guards]
        it = V.subst_item(self.item, pairs)
        return [simp(c) for c in cs + [it[1]]], it


def leaves(items, binders=(), guards=()):
    out = []
    for it in items:
        if it[0] == "all":
            out += leaves(it[3], binders + ((it[1], it[2]),), guards)
        else:
            out.append(Leaf(binders, guards, it))
    return out


def log(G):
    lg = G.problem.f["log"]
    if lg.base != "problem":
        raise Unsupported("the problem is not new")
    return leaves(lg.items)


def dvs(t):
    """[(site, args)] of the decision variables in a term"""
    out = []
    for nm, d in P.collect_apps([t]).items():
        if nm.startswith("dv"):
            out += [(nm, x) for x in d.values()]
    for nm in sum_names(t):
        ent = V.REG.by_name[nm]
        out += [("in " + n, x) for n, x in dvs(ent["body"])]
    return out


def sum_names(t):
    return [n for n in P.collect_apps([t]) if n in V.REG.by_name]


def dvnames(t):
    return {n[3:] if n.startswith("in ") else n for n, _ in dvs(t)}


def matches(a, b):
    """a == b or a == -b up to polynomial identity"""
    if P.quick_goal(a == b):
        return b
    m = simp(-b)
    if P.quick_goal(a == m):
        return m
    return None


def linear_in(t, J):
    """t as c * J + rest with c = +1 or -1 -> (c, rest)"""
    if not any(x.eq(J) for x in V.free_consts(t)):
        return None
    z, o = V.tsub(t, [(J, ZERO)]), V.tsub(t, [(J, ONE)])
    c = simp(o - z)
    if z3.is_int_value(c) and c.as_long() in (1, -1) and P.quick_goal(t == z + c * J):
        return c.as_long(), simp(z)
    return None


def solved(l, n, terms, R):
    """values of the n-th binder at which the leaf speaks of R's variables"""
    J = l.binders[n][0]
    pairs = [(J_, t) for (J_, _), t in zip(l.binders, terms)]
    later = [j for j, _ in l.binders[n + 1:]]
    out = []
    have = dvs(R)
    for site, a in dvs(l.item[3]):
        if site.startswith("in "):
            continue
        for k, x in enumerate(a.children()):
            x = V.tsub(x, pairs)
            if any(y.eq(z) for y in V.free_consts(x) for z in later):
                continue
            lin = linear_in(x, J)
            if lin is None:
                continue
            for site2, b in have:
                if site2 == site:
                    w = simp((b.arg(k) - lin[1]) * lin[0])
                    if not any(w.eq(o) for o in out):
                        out.append(w)
    return out


def choices(l, R, cands, slow):
    """index terms at which the leaf may be what is required"""
    if not slow:
        yield from itertools.product(cands, repeat=len(l.binders))
        return

    def go(terms):
        if len(terms) == len(l.binders):
            yield tuple(terms)
            return
        cs = list(cands)
        for w in solved(l, len(terms), terms, R):
            if not any(w.eq(c) for c in cs):
                cs.append(w)
        for c in cs:
            yield from go(terms + [c])
    yield from go([])


def require(S, name, rel, R, ls, cands, sem=()):
    """the log contains R (rel) at an instance: some logged constraint is R (or
    -R), or the logged constraints together imply it"""
    R = simp(R)
    want = dvnames(R)
    pool = [l for l in ls if l.item[2] == rel and dvnames(l.item[3]) == want]
    for slow in (0, 1, 2):
        for l in pool:
            for terms in choices(l, R, cands, slow):
                cs, it = l.inst(terms)
                if any(is_false(c) for c in cs):
                    continue
                r = it[3]
                g = None
                if slow < 2:
                    m = matches(r, R)
                    if m is not None and (rel == "eq" or m.eq(R)):
                        g = r == m
                elif P.check(list(S.st.pc), And(*cs), 2).ok:
                    if P.check(list(S.st.pc), r == R, 3).ok:
                        g = r == R
                    elif rel == "eq" and P.check(list(S.st.pc), r == -R, 3).ok:
                        g = r == -R
                if g is not None and P.check(list(S.st.pc), And(*cs), 4).ok:
                    S.ob(name, And(*(cs + [g])))
                    return
    # the constraints imply it
    hyps = []
    for l in ls:
        if not (dvnames(l.item[3]) & want):
            continue
        for terms in choices(l, R, cands, True):
            cs, it = l.inst(terms)
            if any(is_false(c) for c in cs) or len(hyps) > 60:
                continue
            if not P.check(list(S.st.pc), And(*cs), 1).ok:
                continue
            hyps.append(it[3] == 0 if it[2] == "eq" else it[3] >= 0)
    S.ob(name, R == 0 if rel == "eq" else R >= 0, *(hyps + list(sem)))


def index_terms(it, terms):
    """the samples (segments, modules) a constraint speaks of, as terms"""
    out = []
    for site, a in dvs(it[3]):
        for x in a.children():
            x = simp(x)
            if not site.startswith("in ") and not any(x.eq(y) for y in out + list(terms)):
                out.append(x)
    return out[:8]


def extra(S, name, ls, facts):
    """every constraint in ls follows from what is required:
    facts(terms) -> [(rel, R)] at index terms made of the binders"""
    for n, l in enumerate(ls):
        terms = [fresh_int("b") for _ in l.binders]
        cs, it = l.inst(terms)
        if P.check(list(S.st.pc) + cs, FALSE, 1).ok:
            continue
        r, rel = it[3], it[2]
        fs = facts(terms, it)
        done = False
        for again in (False, True):
            if again:
                more = index_terms(it, terms)
                if not more:
                    break
                fs = facts(terms + more, it)
            for rel2, R in fs:
                if rel2 != rel:
                    continue
                m = matches(r, simp(R))
                if m is not None and (rel == "eq" or m.eq(simp(R))):
                    S.ob(name, r == m, *cs)
                    done = True
                    break
            if done:
                break
        if not done:
            for rel2, R in fs:
                if rel2 == rel and P.check(list(S.st.pc) + cs, r == R, 2).ok:
                    S.ob(name, r == R, *cs)
                    done = True
                    break
        if not done:
            hy = [R == 0 if rel2 == "eq" else R >= 0 for rel2, R in fs]
            S.ob(name, r == 0 if rel == "eq" else r >= 0, *(cs + hy))


# --------------------------------------------------------------- kinematics

def kin(G, s, i):
    """[(name, residual)] linking sample i of segment s to the one before"""
    p = simp(1 + G.prefix(s) + i)
    q = simp(G.prefix(s) + i)
    v = G.var
    dt = v("dt", s)
    w = v("omega", p)
    c1, s1, c0, s0 = v("thetacos", p), v("thetasin", p), v("thetacos", q), v("thetasin", q)
    dot = c0 * c1 + s0 * s1
    cr = c0 * s1 - s0 * c1
    C, D = P.COS(simp(w * dt)), P.SIN(simp(w * dt))
    return [("x follows the velocity", v("x", q) + v("vx", p) * dt - v("x", p)),
            ("y follows the velocity", v("y", q) + v("vy", p) * dt - v("y", p)),
            ("heading follows the angular velocity", dot * D - cr * C),
            ("headings keep their length", dot * dot + cr * cr - 1),
            ("vx follows the acceleration", v("vx", q) + v("ax", p) * dt - v("vx", p)),
            ("vy follows the acceleration", v("vy", q) + v("ay", p) * dt - v("vy", p)),
            ("angular velocity follows the angular acceleration", v("omega", q) + v("alpha", p) * dt - w)]


def roles(G):
    """decision variable site -> role"""
    J, M = fresh_int("j"), fresh_int("m")
    out = {}
    for f in STATE:
        out[G.var(f, J).decl().name()] = f
    with_m = {"Fx", "Fy"}
    for f in with_m:
        out[G.force(f, J, M).decl().name()] = f
    out[G.var("dt", J).decl().name()] = "dt"
    return out


def sites_ok(S, G):
    """the members hold distinct decision variables"""
    p, s, m, k = (fresh_int(x) for x in ("p", "s", "m", "k"))
    seen = {}
    with S.given(p >= 0, p < G.total):
        ts = [(f, G.var(f, p)) for f in STATE]
    with S.given(s >= 0, s < G.n):
        ts.append(("dt", G.var("dt", s)))
    with S.given(p >= 0, p < G.total, m >= 0, m < G.m):
        for f in ("Fx", "Fy"):
            S.ob("one %s per module" % f, G.g.f[f].at(p).size() == G.m)
            ts.append((f, G.force(f, p, m)))
    for f, t in ts:
        ok = z3.is_app(t) and t.decl().name().startswith("dv") and t.decl().name() not in seen and \
            all(z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED for a in t.children()) and \
            len({a.get_id() for a in t.children()}) == t.num_args()
        if not ok:
            raise Unsupported("%s: not one fresh variable per sample: %s" % (f, str(t)[:100]))
        seen[t.decl().name()] = f
    S.ob("every state and input has its own variable at every sample", TRUE)
    return seen


def classify(G, ls, site):
    kinds = {"kin": [], "time": [], "dyn": []}
    for l in ls:
        names = {site.get(n, n) for n in dvnames(l.item[3])}
        rel = l.item[2]
        if names == {"dt"}:
            kinds["time"].append(l)
        elif rel == "eq" and names and not names & {"Fx", "Fy"} and names <= set(STATE + ["dt"]):
            kinds["kin"].append(l)
        else:
            kinds["dyn"].append(l)
    return kinds


def v_kinematics(sess):
    def post(S, G):
        site = sites_ok(S, G)
        ls = log(G)
        s, i = fresh_int("s"), fresh_int("i")
        with S.given(s >= 0, s < G.n, i >= 0, i < G.counts.at(s)):
            p = simp(1 + G.prefix(s) + i)
            for nm, R in kin(G, s, i):
                require(S, nm, "eq", R, ls, [s, i, p, simp(p - 1)])
            S.ob("the samples exist", And(p >= 1, p < G.total))

        def facts(terms, it):
            out = []
            own = terms[:2]
            for a, b in itertools.permutations(own, 2):
                out += [("eq", R) for _, R in kin(G, a, b)]
            # the sample it speaks of is number p - 1 - prefix(s) of segment s
            for p in terms[2:]:
                for s in own:
                    if not p.eq(s):
                        out += [("eq", R) for _, R in kin(G, s, simp(p - 1 - G.prefix(s)))]
            return out
        extra(S, "no other link between samples", classify(G, ls, site)["kin"], facts)
    ctor(sess, post, "kinematics")


def v_dynamics(sess):
    def req(G, p, m=None):
        v = G.var
        J = fresh_int("j")

        def total(body):
            return V.sum_term(simp(body), J, G.m)
        c, s = v("thetacos", p), v("thetasin", p)
        if m is None:
            t = G.mods.at(J).f["translation"]
            tx, ty = (G.S.method(t, a) for a in ("X", "Y"))
            fx, fy = G.force("Fx", p, J), G.force("Fy", p, J)
            return [("net force along x is mass times acceleration", "eq",
                     total(fx) - G.drv.f["mass"] * v("ax", p)),
                    ("net force along y is mass times acceleration", "eq",
                     total(fy) - G.drv.f["mass"] * v("ay", p)),
                    ("net torque is moment of inertia times angular acceleration", "eq",
                     total((tx * c - ty * s) * fy - (tx * s + ty * c) * fx) - G.drv.f["moi"] * v("alpha", p))]
        mod = G.mods.at(m)
        t = mod.f["translation"]
        tx, ty = (G.S.method(t, a) for a in ("X", "Y"))
        vx, vy, w = v("vx", p), v("vy", p), v("omega", p)
        ux, uy = vx * c + vy * s - ty * w, vy * c - vx * s + tx * w
        vm = mod.f["wheelRadius"] * mod.f["wheelMaxAngularVelocity"]
        fm = mod.f["wheelMaxTorque"] / mod.f["wheelRadius"]
        fx, fy = G.force("Fx", p, m), G.force("Fy", p, m)
        return [("wheel speed is limited", "ineq", vm * vm - ux * ux - uy * uy),
                ("module force is limited", "ineq", fm * fm - fx * fx - fy * fy)]

    def post(S, G):
        site = sites_ok(S, G)
        ls = log(G)
        p, m = fresh_int("p"), fresh_int("m")
        with S.given(p >= 0, p < G.total):
            for nm, rel, R in req(G, p):
                require(S, nm, rel, R, ls, [p])
        with S.given(p >= 0, p < G.total, m >= 0, m < G.m):
            for nm, rel, R in req(G, p, m):
                require(S, nm, rel, R, ls, [p, m])

        def facts(terms, it):
            out = []
            for a in terms:
                out += [(rel, R) for _, rel, R in req(G, a)]
            for a, b in itertools.permutations(terms, 2):
                out += [(rel, R) for _, rel, R in req(G, a, b)]
            return out
        extra(S, "no other restriction of states or forces", classify(G, ls, site)["dyn"], facts)

    def pre(S, G, pth):
        P.RANGED["%s.drivetrain.modules[].wheelRadius" % pth] = (z3.Q(1, 10 ** 9), None)
    ctor(sess, post, "dynamics", extra_pre=pre)


# --------------------------------------------------------------------- time

def v_time(sess):
    def attained(r, terms, cs):
        """a running maximum is its start value or one of its values"""
        xs = folds([r], "max")
        if len(xs) != 1:
            return [(r, terms, cs)]
        x = xs[0]
        ent = V.REG.by_name[x.decl().name()]
        ps = P._min_ps(x)
        i0 = P.rec_sub(ent["init"], ent, None, None, ps)
        out = [(simp(z3.substitute(r, (x, i0))), terms, cs + [x == i0])]
        w = P.witness(ent, x)
        val = P.rec_sub(ent["body"], ent, w, [i0], ps)
        todo = [(val, cs + [w >= 0, w < x.arg(0), x == val])]
        while todo:
            v, c = todo.pop()
            if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
                todo += [(v.arg(1), c + [v.arg(0)]), (v.arg(2), c + [Not(v.arg(0))])]
            else:
                out.append((simp(z3.substitute(r, (x, v))), terms + [w], c))
        return out

    def folds(ts, kind):
        out = []
        for n, d in P.collect_apps(list(ts)).items():
            ent = V.REG.by_name.get(n)
            if ent is not None and ent["kind"] == "rec" and P.fold_kind(ent) == kind:
                out += list(d.values())
        return out

    def post(S, G):
        site = sites_ok(S, G)
        ls = log(G)
        o = G.problem.f["objective"]
        S.ob("the objective is minimised", isinstance(o, Struct) and o.f["sense"].key == "Minimize")
        J = fresh_int("j")
        if isinstance(o, Struct):
            S.ob("the objective is the total time",
                 o.f["den"] == V.sum_term(simp(z3.ToReal(G.counts.at(J)) * G.var("dt", J)), J, G.n))
        s, m, a, b, p, q = (fresh_int(x) for x in ("s", "m", "a", "b", "p", "q"))
        with S.given(s >= 0, s < G.n):
            require(S, "time steps are not negative", "ineq", G.var("dt", s), ls, [s])

        def dist(i, j, ax):
            t, u = G.mods.at(i).f["translation"], G.mods.at(j).f["translation"]
            d = simp(S.method(t, ax) - S.method(u, ax))
            return ite(d >= 0, d, -d)

        def travel(s, m):
            mod = G.mods.at(m)
            return simp(G.var("dt", s) * mod.f["wheelRadius"] * mod.f["wheelMaxAngularVelocity"])

        def tight(l, r, rel, terms, cs):
            if P.check(list(S.st.pc) + cs, FALSE, 1).ok:
                return
            if rel == "ineq" and any(matches(r, G.var("dt", t)) is not None for t in terms):
                S.ob("no other bound on a time step", r == G.var("dt", terms[0]), *cs)
                return
            if rel == "ineq" and not dvnames(r):
                # the start value of a running maximum: no limit at all
                S.ob("no other bound on a time step", r >= 0, *cs)
                return
            # r == bound - travel(s, m): at the pair that attains the bound
            done = False
            for t, u in itertools.permutations(terms, 2):
                bound = simp(z3.simplify(r + travel(t, u), som=True))
                if dvnames(bound) or any(
                        x.get_id() in {y.get_id() for y in V.free_consts(bound)} for x in terms):
                    continue
                done = True
                bname = "the bound is the distance of a pair of modules"
                w = bound_witness(bound)
                if w is None:
                    raise Unsupported("the limit on the time steps is not a running minimum over pairs of modules")
                wa, wb = w
                S.ob(bname, z3.Or(*[And(wa >= 0, wa < G.m, wb >= 0, wb < G.m,
                                        simp(dist(wa, wb, ax)) == bound, bound != 0) for ax in ("X", "Y")]), *cs)
                break
            if not done:
                S.ob("no other bound on a time step", FALSE, *cs)

        # every pair with a non-zero distance limits every wheel in every segment
        time = classify(G, ls, site)["time"]
        for ax in ("X", "Y"):
            with S.given(s >= 0, s < G.n, m >= 0, m < G.m, a >= 0, a < b, b < G.m):
                d = dist(a, b, ax)
                ok = False
                goal = travel(s, m) <= d
                hyps = []
                for l in time:
                    for terms in itertools.product([s, m, a, b], repeat=len(l.binders)):
                        cs, it = l.inst(terms)
                        if any(is_false(c) for c in cs):
                            continue
                        hyps.append(Implies(And(*cs), it[3] == 0 if it[2] == "eq" else it[3] >= 0))
                # a fastest wheel: slower ones travel less
                for x in folds(hyps, "max"):
                    w = simp(G.mods.at(m).f["wheelRadius"] * G.mods.at(m).f["wheelMaxAngularVelocity"])
                    t_ = G.var("dt", s)
                    hyps.append(Implies(And(t_ >= 0, w <= x), t_ * w <= t_ * x))
                S.ob("no wheel travels further than the modules' %s distance in one step" % ax,
                     goal, *(hyps + [d != 0]))
        # and nothing tighter is imposed: every limit is the distance of some pair
        for l in time:
            terms = [fresh_int("b") for _ in l.binders]
            cs, it = l.inst(terms)
            for r, terms, cs in attained(it[3], terms, cs):
                tight(l, r, it[2], terms, cs)

    def bound_witness(bound):
        """the pair of modules at which a (nested) running minimum is attained"""
        apps = [x for n, d in P.collect_apps([bound]).items()
                if n in V.REG.by_name and V.REG.by_name[n]["kind"] == "rec" for x in d.values()]
        if len(apps) != 1 or not apps[0].eq(bound):
            return None
        x = apps[0]
        ent = V.REG.by_name[x.decl().name()]
        if not P.is_minfold(ent):
            return None
        ws = []
        cur = x
        idx = []
        for _ in range(2):
            ent = V.REG.by_name[cur.decl().name()]
            w = P.witness(ent, cur)
            ps = P._min_ps(cur)
            i0 = P.rec_sub(ent["init"], ent, None, None, ps)
            body = P.rec_sub(ent["body"], ent, w, [i0], ps)
            inner = [y for n, d in P.collect_apps([body]).items()
                     if n in V.REG.by_name and V.REG.by_name[n]["kind"] == "rec" for y in d.values()]
            nxt = [y for y in inner if P.is_minfold(V.REG.by_name[y.decl().name()]) and y.eq(body)]
            if nxt:
                cur = nxt[0]
                continue
            # indexes of the modules in the body
            for n, d in P.collect_apps([body]).items():
                if ".modules[]" in n:
                    for y in d.values():
                        if not any(y.arg(0).eq(k) for k in idx):
                            idx.append(y.arg(0))
            break
        return tuple(idx) if len(idx) == 2 else None

    def pre(S, G, pth):
        rec = sess.prog.records["SwerveModule"]
        for f in sess.prog.records["Translation2"].fields if "Translation2" in sess.prog.records else ():
            P.RANGED["%s.drivetrain.modules[].translation.%s" % (pth, f)] = (-10 ** 15, 10 ** 15)
        for k, r in sess.prog.records.items():
            if k.startswith("Translation2"):
                for f in r.fields:
                    P.RANGED["%s.drivetrain.modules[].translation.%s" % (pth, f)] = (-10 ** 15, 10 ** 15)
    ctor(sess, post, "time", extra_pre=pre)


# -------------------------------------------------------- user constraints

def v_apply(sess):
    def post(S, G):
        sites_ok(S, G)
        tr = S.st.cells.get("$trace")
        evs = [l for l in leaves(tr.items if tr is not None else ()) if l.item[2] == "Apply"]

        def state_goals(args, p):
            pose, v, w, a, al = args[1:6]
            M = S.method
            rot = M(pose, "Rotation")
            ex = [("x", M(pose, "X")), ("y", M(pose, "Y")), ("thetacos", M(rot, "Cos")), ("thetasin", M(rot, "Sin")),
                  ("vx", M(v, "X")), ("vy", M(v, "Y")), ("omega", w), ("ax", M(a, "X")), ("ay", M(a, "Y")),
                  ("alpha", al)]
            return [x.den == G.var(f, p) for f, x in ex]

        def con_goals(con, want):
            out = []
            try:
                loops.vals_equal(con, want, out, "")
            except Unsupported:
                return None
            return [g if not h else Implies(And(*h), g) for _, h, g in out]

        def kinds():
            return [("waypointConstraints", "waypoint"), ("segmentConstraints", "segment")]

        def listing(kind, w, c):
            lst = G.wp.at(w).f[kind]
            return lst, lst.at(c)

        def provable(gs, hy, t=3):
            return all(P.quick_goal(g) or P.check(list(S.st.pc) + hy, g, t).ok for g in gs)

        # completeness
        J = fresh_int("j")
        probe = G.wp.at(J).f["waypointConstraints"].at(J)
        alts = [t for t, a in enumerate(probe.alts) if a is not None]
        for kind, what in kinds():
            for t in alts:
                w, c, i = fresh_int("w"), fresh_int("c"), fresh_int("i")
                if kind == "waypointConstraints":
                    hy = [w >= 0, w <= G.n]
                    p = G.prefix(w)
                    cands = [w, c]
                else:
                    hy = [w >= 1, w <= G.n, i >= 0, i < G.counts.at(simp(w - 1))]
                    p = simp(1 + G.prefix(simp(w - 1)) + i)
                    cands = [w, simp(w - 1), c, i, p]
                lst, con = listing(kind, w, c)
                hy += [c >= 0, c < lst.size(), con.tag == t]
                name = "every %s constraint is applied: %s" % (what, con.alts[t].ty)
                with S.given(*hy):
                    pc = list(S.st.pc)
                    found = None
                    for l in evs:
                        a = l.item[3]
                        if a[0].ty != con.alts[t].ty or found:
                            continue
                        for terms in itertools.product(cands, repeat=len(l.binders)):
                            cs, it = l.inst(terms)
                            if any(is_false(x) for x in cs):
                                continue
                            gc = con_goals(it[3][0], con.alts[t])
                            if gc is None or not all(P.quick_goal(g) for g in gc):
                                continue
                            if not provable(cs, []):
                                continue
                            gs = state_goals(it[3], p)
                            if provable(gs, []):
                                found = cs + gc + gs
                                break
                            found = cs + gc + gs
                    S.ob(name, And(*found) if found else FALSE)
                    S.ob("the sample exists", And(p >= 0, p < G.total))
        # soundness: each application is one of those, and none is made twice
        maps = []
        for l in evs:
            terms = [fresh_int("b") for _ in l.binders]
            cs, it = l.inst(terms)
            if P.check(list(S.st.pc) + cs, FALSE, 1).ok:
                continue
            got = None
            name = "every application is at a sample its constraint covers: %s" % it[3][0].ty
            with S.given(*cs):
                plus = [x for t in terms for x in (t, simp(t + 1))]
                for kind, what in kinds():
                    for w, c in itertools.permutations(plus, 2):
                        lst, con = listing(kind, w, c)
                        t = next((t for t in alts if con.alts[t].ty == it[3][0].ty), None)
                        if t is None:
                            continue
                        gc = con_goals(it[3][0], con.alts[t])
                        if gc is None or not all(P.quick_goal(g) for g in gc):
                            continue
                        side = [c >= 0, c < lst.size(), con.tag == t, w >= 0, w <= G.n]
                        if kind == "waypointConstraints":
                            opts = [(None, G.prefix(w))]
                        else:
                            side.append(w >= 1)
                            first = simp(1 + G.prefix(simp(w - 1)))
                            opts = [(i, simp(first + i)) for i in terms] + [(simp(i - first), i) for i in terms]
                        for i, p in opts:
                            sd = side if i is None else side + [i >= 0, i < G.counts.at(simp(w - 1))]
                            gs = state_goals(it[3], p)
                            if all(P.quick_goal(g) for g in gs) or provable(gs, [], 2):
                                got = (kind, w, c, p, sd + gc + gs)
                                break
                        if got:
                            break
                    if got:
                        break
                S.ob(name, And(*got[4]) if got else FALSE)
            if got:
                maps.append((l, terms, cs, got))
        nm = "no constraint is applied twice to a sample"
        for x, (l1, t1, c1, g1) in enumerate(maps):
            t2 = [fresh_int("b") for _ in t1]
            ren = list(zip(t1, t2))
            sub = lambda e: V.tsub(e, ren)
            same = [g1[n] == sub(g1[n]) for n in (1, 2, 3)]
            S.ob(nm, And(*[a == b for a, b in zip(t1, t2)]), *(c1 + [sub(c) for c in c1] + same))
            for l2, u, c2, g2 in maps[x + 1:]:
                if g2[0] != g1[0] or l1.item[3][0].ty != l2.item[3][0].ty:
                    continue        # another list or another kind of constraint
                S.ob(nm, FALSE, *(c1 + c2 + [g1[n] == g2[n] for n in (1, 2, 3)]))
    ctor(sess, post, "user constraints")


# ------------------------------------------------------------ initial values

def v_start(sess):
    """the constructor with ApplyInitialGuess verified through its body"""
    hold = {}
    ct_guess = "SwervePathBuilder::CalculateInitialGuess"

    def c_guess(ex, st, this, args, f):
        g = ex.fresh(T.parse("SwerveSolution"), "guess")
        tot = hold["G"].total
        for k in ("x", "y", "thetacos", "thetasin", "dt"):
            st.assume(g.f[k].size() == tot)
        if "guess" in hold:
            raise Unsupported("the initial guess is computed twice")
        hold["guess"] = g
        return g

    def pre(S, G, pth):
        hold["G"] = G
        hold.pop("guess", None)
        P.RANGED["guess.dt[]"] = (z3.Q(1, 10 ** 12), None)

    def post(S, G):
        sites_ok(S, G)
        if "guess" not in hold:
            S.ob("the initial guess is computed", FALSE)
            return
        g = hold["guess"]
        import lib

        def value(f, p):
            v = G.g.f[f].at(p)
            if not isinstance(v, SVar) or v.node is None:
                raise Unsupported("member %s holds no decision variables" % f)
            return S.ex.load(S.st, lib.var_ref(S.ex, S.st, v))
        p, s = fresh_int("p"), fresh_int("s")
        q = simp(p - 1)
        at = lambda k, i: g.f[k].at(i)
        with S.given(p >= 0, p < G.total):
            for f in ("x", "y", "thetacos", "thetasin"):
                S.ob("%s starts at the initial guess" % f, value(f, p) == at(f, p))
        for f in STATE[4:]:
            S.ob("the first sample starts at rest (%s)" % f, value(f, ZERO) == 0)
        with S.given(p >= 1, p < G.total):
            dt = at("dt", p)
            for f, k in (("vx", "x"), ("vy", "y")):
                S.ob("%s starts at the backward difference" % f, value(f, p) == (at(k, p) - at(k, q)) / dt)
            c1, s1, c0, s0 = at("thetacos", p), at("thetasin", p), at("thetacos", q), at("thetasin", q)
            S.ob("angular velocity starts at the turn since the sample before",
                 value("omega", p) == P.ATAN2(simp(s1 * c0 - c1 * s0), simp(c1 * c0 + s1 * s0)) / dt)
            for f, k in (("ax", "vx"), ("ay", "vy"), ("alpha", "omega")):
                S.ob("%s starts at the backward difference" % f, value(f, p) == (value(k, p) - value(k, q)) / dt)
        with S.given(s >= 0, s < G.n):
            S.ob("time steps start at a positive value", value("dt", s) > 0)
    ctor(sess, post, "initial values", inline_guess=True, extra_pre=pre, more={ct_guess: c_guess})


# ------------------------------------------------- generating and reporting

def built(sess, S, hold):
    """`this`: a generator as the constructor leaves it (its body is run; the
    obligations inside it belong to C12-C16)"""
    ex, st = S.ex, S.st
    rec, ty = sess.record(Q + "SwerveTrajectoryGenerator")
    cs = [c for c in sess.prog.find(Q + "SwerveTrajectoryGenerator") if c["kind"] == "CXXConstructorDecl"
          and len(front.params_of(c)) == 2]
    if not cs:
        raise Unsupported("constructor not found")
    c = sess.prog.defn.get(cs[0]["id"], cs[0])
    ps = front.params_of(c)
    b = ex.fresh(sess.prog.ty(ps[0]).noref(), "arg0")
    h = ex.fresh(sess.prog.ty(ps[1]).noref(), "handle")
    import path as PP
    ro = PP.role(sess)
    G = Gen(S, dict(path=b.f[ro["path"]], counts=b.f[ro["counts"]]))
    G.builder, G.handle = b, h
    S.assume(G.n <= LIM, G.wp.size() >= G.n + 1, G.wp.size() <= LIM, G.m <= LIM, G.total <= 2 ** 40,
             G.path_callbacks(b.f[ro["path"]]).size() <= LIM)
    P.RANGED["arg0.%s[]" % ro["counts"]] = (1, LIM)
    for k in ("waypointConstraints", "segmentConstraints"):
        P.RANGED["arg0.%s.waypoints[].%s.size" % (ro["path"], k)] = (0, LIM)
    this = ex.new_cell(st, Struct(ty.canon(), {}), "obj")
    ex.muted += 1
    try:
        ex.cur = st
        ex.ctor_body(st, rec, ty, c, this, [ex.new_cell(st, b, "b"), ex.new_cell(st, h, "h")])
    finally:
        ex.muted -= 1
    hold["G"] = G
    st.cells["$trace"] = loops_trace()
    return this


def loops_trace():
    return V.Trace("trace")


def path_callbacks(self, path):
    return path.f["callbacks"]


Gen.path_callbacks = path_callbacks

CHANNELS = [(f, f) for f in STATE]


def solution_ok(S, G, sol, what):
    """the solution is the current values of the generator's variables"""
    for f in STATE:
        S.ob("%s: one %s per sample" % (what, f), sol.f[f].size() == G.total)
    for f in ("moduleFX", "moduleFY"):
        S.ob("%s: one list of module forces per sample (%s)" % (what, f), sol.f[f].size() == G.total)
    S.ob("%s: one time step between samples" % what, sol.f["dt"].size() == G.total - 1)
    p, m, s, i = (fresh_int(x) for x in ("p", "m", "s", "i"))
    with S.given(p >= 0, p < G.total):
        for f in STATE:
            S.ob("%s: %s is the value of its variable" % (what, f), sol.f[f].at(p) == G.var(f, p))
        for f, v in (("moduleFX", "Fx"), ("moduleFY", "Fy")):
            S.ob("%s: one force per module (%s)" % (what, f), sol.f[f].at(p).size() == G.m)
    with S.given(p >= 0, p < G.total, m >= 0, m < G.m):
        for f, v in (("moduleFX", "Fx"), ("moduleFY", "Fy")):
            S.ob("%s: %s is the value of its variable" % (what, f), sol.f[f].at(p).at(m) == G.force(v, p, m))
    with S.given(s >= 0, s < G.n, i >= 0, i < G.counts.at(s)):
        S.ob("%s: the segment's time step is repeated for each of its samples" % what,
             sol.f["dt"].at(simp(G.prefix(s) + i)) == G.var("dt", s))
        S.ob("%s: the entry exists" % what, And(G.prefix(s) + i >= 0, G.prefix(s) + i < G.total - 1))


EXITS = (-7, 2)


def anything(old, new=None, seen=None, path=()):
    """an arbitrary value in place of every scalar that may have changed"""
    if new is not None and V.same(old, new):
        return old
    if isinstance(old, z3.ExprRef):
        if seen is not None:
            seen.add(path)
        c = z3.Const(V.uid("meanwhile"), old.sort())
        if old.sort() == I:
            P.RANGED[c.decl().name()] = (-2 ** 31, 2 ** 31 - 1)
        return c
    if isinstance(old, Struct) and (new is None or isinstance(new, Struct) and new.f.keys() == old.f.keys()):
        return Struct(old.ty, {k: anything(v, new and new.f[k], seen, path + (k,)) for k, v in old.f.items()})
    if new is None:
        return old
    raise Unsupported("a callback changes something that is not a number")


def meanwhile(hold, ex, st, cb):
    """what the callbacks, the caller's threads and the iterations of the solver
    may have changed by the time Solve returns"""
    for k, v in list(st.cells.items()):
        if k.startswith(("static:", "global:")):
            st.cells[k] = anything(v)
    if not isinstance(cb, Closure):
        return
    seen = set()
    while True:
        ex.muted += 1
        keep = hold.get("stop")
        try:
            (_, s), = iterations(hold, ex, st.copy(), cb)
        finally:
            ex.muted -= 1
            hold["stop"] = keep
        before = len(seen)
        for k, w in s.cells.items():
            if k.startswith("static:") and k not in st.cells:
                st.cells[k] = anything(w)
        for k, v in list(st.cells.items()):
            if not k.startswith(("static:", "global:", "val:", "$trace")):
                st.cells[k] = anything(v, s.cells.get(k, v), seen, (k,))
        if len(seen) == before:
            return


def generate(sess, label, on_solve=None, post=None):
    hold = {}
    ct = contracts(sess)

    def solve(ex, st, b, cfg):
        hold["solves"] = hold.get("solves", 0) + 1
        st.flags["solved"] = True
        if on_solve:
            on_solve(hold, ex, st, ex.load(st, b.field("callback")))
        meanwhile(hold, ex, st, ex.load(st, b.field("callback")))
        k = z3.Int(V.uid("exit"))
        P.RANGED[k.decl().name()] = EXITS
        hold["exit"] = k
        return Struct("SolverStatus", {"exitCondition": k, "cost": z3.Real(V.uid("cost"))})
    ct["$solve"] = solve

    def this(S):
        hold["S"] = S
        r = built(sess, S, hold)
        hold["G"].see(S.ex.load(S.st, r))
        hold["this"] = r
        return r

    def post2(S):
        G = hold["G"]
        G.S = S
        S.ob("the problem is solved once", hold.get("solves") == 1)
        if "exit" not in hold:
            return
        post(S, G, hold)
    sess.verify(Q + "Generate", post2, this=this, contracts=ct, label=label, budget=400)


def v_solution(sess):
    def on_solve(hold, ex, st, cb):
        G, S = hold["G"], hold["S"]
        st = st.copy()
        meanwhile(hold, ex, st, cb)
        for evs, s in iterations(hold, ex, st, cb):
            for l in evs:
                sol = next((a for a in l.item[3] if isinstance(a, Struct) and "moduleFX" in a.f), None)
                old = S.st, ex.cur
                S.st = ex.cur = s
                try:
                    if sol is None:
                        S.ob("callbacks are given a solution", FALSE)
                    else:
                        solution_ok(S, G, sol, "callback")
                finally:
                    S.st, ex.cur = old

    def post(S, G, hold):
        sites_ok(S, G)
        r = S.ret
        ok = And(hold["exit"] >= 0, hold["exit"] != 2)
        with S.given(ok):
            v = resolve(S, r.f["val"])
            if not isinstance(v, Struct) or "moduleFX" not in v.f:
                S.ob("result: a solution is returned", FALSE)
            else:
                solution_ok(S, G, v, "result")
    generate(sess, "reported solution", on_solve, post)


def iterations(hold, ex, st, cb):
    """the callback of the problem, called once at an arbitrary moment:
    -> [(calls of user callbacks, state afterwards)]"""
    S = hold["S"]
    if not isinstance(cb, Closure):
        raise Unsupported("the problem's callback is not a lambda")
    s = st.copy()
    s.cells["$trace"] = V.Trace("trace")
    old = ex.cur
    ex.cur = s
    try:
        info = ex.new_cell(s, Opaque("iteration"), "info")
        hold["stop"] = ex.rv(s, ex.call_closure(s, cb, [info]))
    finally:
        ex.cur = old
    evs = [l for l in leaves(s.cells["$trace"].items) if l.item[2] == "call"]
    return [(evs, s)]


def resolve(S, v):
    """a value chosen by conditions the current case decides"""
    v = S.ex.rv(S.st, v)
    while isinstance(v, Opaque) and v.key == "ite" and len(v.args) == 3:
        c, a, b = v.args
        if P.check(list(S.st.pc), c, 3).ok:
            v = a
        elif P.check(list(S.st.pc), Not(c), 3).ok:
            v = b
        else:
            break
    return v


def v_generate(sess):
    flag_fn = sess.find("trajopt::GetCancellationFlag")

    def on_solve(hold, ex, st, cb):
        G, S = hold["G"], hold["S"]
        flag = ex.call(st, flag_fn, None, [])
        if not isinstance(flag, Ref):
            raise Unsupported("the cancellation flag is not an object")
        old = S.st, ex.cur

        def view(s):
            S.st = ex.cur = s
        try:
            view(st)
            S.ob("a request made before generating starts is cleared", ex.load(st, flag) == 0)
            # some iteration: the flag holds whatever anybody stored last
            s0 = st.copy()
            meanwhile(hold, ex, s0, cb)
            c = z3.Int(V.uid("cancel"))
            P.RANGED[c.decl().name()] = (-2 ** 31, 2 ** 31 - 1)
            ex.store(s0, flag, c)
            t0 = z3.Real(V.uid("t0"))
            s0.cells["$now"] = t0
            before = {k: v for k, v in s0.cells.items() if k.startswith("static:")}
            (evs, s), = iterations(hold, ex, s0, cb)
            view(s)
            stop = hold["stop"]
            if isinstance(stop, z3.ExprRef) and stop.sort() == I:
                stop = stop != 0
            S.ob("a cancellation stops the solver at the next iteration", Implies(c != 0, stop))
            S.ob("nothing else stops the solver", Implies(c == 0, Not(stop)))
            S.ob("a request is not lost", Implies(c != 0, ex.load(s, flag) != 0))
            cbs = G.path_callbacks(hold["G"].builder.f["path"] if "path" in G.builder.f else
                                   next(v for v in G.builder.f.values() if isinstance(v, Struct) and "callbacks" in v.f))
            evs = [l for l in evs if not P.check(list(s.pc) + l.inst([fresh_int("b") for _ in l.binders])[0], FALSE, 2).ok]
            if len(evs) != 1 or len(evs[0].binders) != 1:
                S.ob("every registered callback is called, in order", FALSE)
                return
            l = evs[0]
            k = fresh_int("k")
            guard = simp(And(*[V.tsub(g, [(l.binders[0][0], k)]) for g in l.guards + [l.item[1]]])) \
                if not isinstance(l.guards, tuple) else simp(And(*[V.tsub(g, [(l.binders[0][0], k)]) for g in l.guards + (l.item[1],)]))
            with S.given(k >= 0, k < cbs.size()):
                _, it = l.inst([k])
                fn, args = it[3][0], it[3][1:]
                S.ob("all registered callbacks or none", TRUE if not mentions(guard, k) else FALSE)
                S.ob("as many calls as registered callbacks", l.binders[0][1] == cbs.size())
                want = cbs.at(k)
                S.ob("every registered callback is called, in order",
                     TRUE if isinstance(fn, FuncV) and isinstance(want, FuncV) and fn.name == want.name and
                     len(fn.args) == len(want.args) and all(simp(a).eq(simp(b)) for a, b in zip(fn.args, want.args)) else FALSE)
                hs = [a for a in args if isinstance(a, z3.ExprRef)]
                S.ob("callbacks are given the generator's handle", And(len(hs) == 1, hs[0] == G.handle) if hs else FALSE)
                sol = next((a for a in args if isinstance(a, Struct) and "moduleFX" in a.f), None)
                S.ob("callbacks are given a solution", TRUE if sol is not None else FALSE)
            if sol is not None:
                solution_ok(S, G, sol, "callback")
            # the frame rate limit: never longer than a sixtieth of a second without one
            lasts = [x for n, x in before.items() if isinstance(x, z3.ExprRef) and x.sort() == R]
            now = s.cells.get("$now")
            if len(lasts) == 1 and isinstance(now, z3.ExprRef):
                key = next(n for n, x in before.items() if x is lasts[0])
                S.ob("callbacks are called when a sixtieth of a second has passed since the last time",
                     Implies(t0 - lasts[0] >= z3.Q(1, 60), guard), lasts[0] <= t0)
                S.ob("the limit counts from the last time callbacks were called",
                     Implies(Not(guard), s.cells[key] == lasts[0]), lasts[0] <= t0)
                S.ob("the last time is not in the future", s.cells[key] <= now, lasts[0] <= t0)
        finally:
            S.st, ex.cur = old

    def post(S, G, hold):
        k = hold["exit"]
        r = S.ret
        has = r.f["has"]
        S.ob("a solution is returned exactly when the solver neither fails nor is stopped",
             has == And(k >= 0, k != 2))
        with S.given(Not(And(k >= 0, k != 2))):
            S.ob("the error is the solver's message for its exit", message_of(resolve(S, r.f["err"]), k))
        with S.given(And(k >= 0, k != 2)):
            v = resolve(S, r.f["val"])
            S.ob("the solution is returned", TRUE if isinstance(v, Struct) and "moduleFX" in v.f else FALSE)
    generate(sess, "outcome", on_solve, post)


def mentions(t, k):
    return any(x.eq(k) for x in V.free_consts(t))


def message_of(v, k):
    """v is the text ToMessage gives for exit k (whatever wraps the text)"""
    while isinstance(v, Opaque) and v.key in ("str", "string", "basic_string", "string_view") and len(v.args) == 1:
        v = v.args[0]
    v = L.text(v)
    if isinstance(v, Opaque) and v.key == "ToMessage" and len(v.args) == 1 and isinstance(v.args[0], z3.ExprRef):
        return v.args[0] == k
    return FALSE
