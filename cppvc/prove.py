"""Discharging verification conditions with z3 (ground instantiation of the
theory of sums, locators and elementary functions)."""
import itertools
import subprocess
import time
import z3
from values import *
import values as V

# std::numbers::pi is a double, hence a rational number
PI = z3.RealVal("884279719003555/281474976710656")
INF = z3.Real("inf")

_uf = {}


def uf(name, *sorts):
    f = _uf.get(name)
    if f is None:
        f = z3.Function(name, *sorts)
        _uf[name] = f
    return f


COS = uf("cos", R, R)
SIN = uf("sin", R, R)
ATAN2 = uf("atan2", R, R, R)
SQRT = uf("sqrt", R, R)
HYPOT = uf("hypot", R, R, R)
TAN = uf("tan", R, R)
ACOS = uf("acos", R, R)
ASIN = uf("asin", R, R)
ATAN = uf("atan", R, R)
EXP = uf("exp", R, R)
LOG_ = uf("log", R, R)
POW = uf("pow", R, R, R)
FL32 = uf("fl32", R, R)       # rounding to float: nothing is known of it
ISINT = uf("isint", R, B)      # the value is an integer

# functions/constants known to denote machine integers: name -> (lo, hi)
RANGED = {}


class ranges:
    """ranges that hold for one contract only: its symbols are named after
    parameters, which another contract may have too"""

    def __init__(self, given=None):
        self.given = given

    def __enter__(self):
        self.saved = dict(RANGED)
        if self.given is not None:
            RANGED.clear()
            RANGED.update(self.given)

    def __exit__(self, *a):
        RANGED.clear()
        RANGED.update(self.saved)
        return False


def ranged_const(name, lo, hi):
    c = z3.Int(name)
    RANGED[name] = (lo, hi)
    return c


def ranged_fun(name, nargs, lo, hi):
    f = z3.Function(name, *([I] * nargs + [I]))
    RANGED[name] = (lo, hi)
    return f


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0


STATS = Stats()


def collect_apps(terms):
    apps = {}
    seen = set()
    stack = list(terms)
    while stack:
        x = stack.pop()
        h = x.get_id()
        if h in seen:
            continue
        seen.add(h)
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                apps.setdefault(x.decl().name(), {})[h] = x
            stack.extend(x.children())
        elif z3.is_quantifier(x):
            # do not look for ground instances below binders
            pass
    return apps


def collect_divs(terms):
    """integer divisions by a non-literal"""
    out = {}
    seen = set()
    stack = list(terms)
    while stack:
        x = stack.pop()
        h = x.get_id()
        if h in seen:
            continue
        seen.add(h)
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_IDIV and not z3.is_int_value(x.arg(1)):
                out[h] = x
            stack.extend(x.children())
    return list(out.values())


def _has_var(t):
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_var(x):
            return True
        if z3.is_app(x):
            stack.extend(x.children())
    return False


_nonneg_cache = {}


def body_nonneg(ent):
    """Is the summand non-negative for every J? (Int bodies of sizes/counters)"""
    k = ent["name"]
    if k in _nonneg_cache:
        return _nonneg_cache[k]
    _nonneg_cache[k] = False
    b = ent["body"]
    ok = False
    if b.sort() == I:
        hyps = []
        ax = axioms([b], rounds=1)
        s = z3.Solver()
        s.set("timeout", 2000)
        s.add(ax)
        s.add(b < 0)
        ok = s.check() == z3.unsat
    _nonneg_cache[k] = ok
    return ok


def rec_sub(t, ent, j, prev, ps):
    sub = list(zip(ent["params"], ps))
    if j is not None:
        sub.append((ent["J"], j))
        sub.extend(zip(ent["prev"], prev))
    return simp(z3.substitute(t, *sub)) if sub else t


# running minima and maxima: f(k+1) = min(f(k), v(k)), whatever form the loop
# body has

_minfold = {}


def fold_kind(ent):
    """"min", "max" or None"""
    k = ent["name"]
    if k not in _minfold:
        _minfold[k] = None
        b = ent["body"]
        if len(ent["group"]) == 1 and b.sort() == R and V.mentions_const(b, ent["prev"][0]):
            p, q = fresh_real("p"), fresh_real("q")
            fp = z3.substitute(b, (ent["prev"][0], p))
            fq = z3.substitute(b, (ent["prev"][0], q))
            if check([p <= q], fp == z3.If(fq < p, fq, p), 4.0).ok:
                _minfold[k] = "min"
            elif check([p <= q], fq == z3.If(fp > q, fp, q), 4.0).ok:
                _minfold[k] = "max"
    return _minfold[k]


def is_minfold(ent):
    return fold_kind(ent) == "min"


def _le(ent, a, b):
    return a <= b if is_minfold(ent) else a >= b


def _min_ps(x):
    return tuple(x.arg(i) for i in range(1, x.num_args()))


def witness(ent, x):
    return uf("wit_" + ent["name"], *([a.sort() for a in x.children()] + [I]))(*x.children())


def min_facts(ent, x):
    """the minimum is at most the start value, and it is the start value or one
    of the values"""
    k, ps = x.arg(0), _min_ps(x)
    i0 = rec_sub(ent["init"], ent, None, None, ps)
    w = witness(ent, x)
    return [_le(ent, x, i0), z3.Or(x == i0, z3.And(w >= 0, w < k, x == rec_sub(ent["body"], ent, w, [i0], ps)))]


def min_instance(ent, x, j):
    k, ps = x.arg(0), _min_ps(x)
    i0 = rec_sub(ent["init"], ent, None, None, ps)
    return z3.Implies(z3.And(j >= 0, j < k), _le(ent, x, rec_sub(ent["body"], ent, j, [i0], ps)))


def min_pair(ent, x, y):
    """the same values, other start values"""
    px, py = _min_ps(x), _min_ps(y)
    if not x.arg(0).eq(y.arg(0)):
        return []
    z = z3.Const("%prevz", R)
    J = z3.Int("%Jz")
    if not rec_sub(ent["body"], ent, J, [z], px).eq(rec_sub(ent["body"], ent, J, [z], py)):
        return []
    u = rec_sub(ent["init"], ent, None, None, px)
    v = rec_sub(ent["init"], ent, None, None, py)
    if not is_minfold(ent):
        return [z3.Implies(v <= u, x == z3.If(y > u, y, u))]
    return [z3.Implies(u <= v, x == z3.If(y < u, y, u))]


def min_patterns(ent, seen=()):
    """[(function name, position, argument or None)]: where values are indexed"""
    r = ent.get("minpat")
    if r is None:
        r = []
        J = ent["J"]
        for nm, d in collect_apps([ent["body"]]).items():
            sub = REG.by_name.get(nm)
            for x in d.values():
                if sub is None:
                    for i, a in enumerate(x.children()):
                        if a.sort() == I and V.mentions_const(a, J):
                            ab = V.linear_in(a, J)
                            if ab and abs(ab[0]) == 1:
                                r.append((nm, i, ab))
                elif sub["kind"] == "rec" and nm not in seen:
                    for n2, i2, _ in min_patterns(sub, seen + (nm,)):
                        r.append((n2, i2, (1, ZERO)))
        ent["minpat"] = r
    return r


def min_candidates(ent, x, apps):
    """indexes worth instantiating the minimum at"""
    out = {}
    ps = _min_ps(x)
    for nm, i, (sg, r) in min_patterns(ent):
        for y in apps.get(nm, {}).values():
            if _has_var(y):
                continue
            r2 = rec_sub(r, ent, ZERO, [z3.RealVal(0)], ps)
            j = simp((y.arg(i) - r2) * sg)
            out[j.get_id()] = j
    return list(out.values())[:40]


def axioms(terms, rounds=2, extra_ks=()):
    out = []
    done = set()
    terms = list(terms)
    for rnd in range(rounds):
        apps = collect_apps(terms + out)
        new = []
        for dv in collect_divs(terms + out):
            if ("div", dv.get_id()) in done:
                continue
            done.add(("div", dv.get_id()))
            x_, y_ = dv.arg(0), dv.arg(1)
            new.append(z3.Implies(y_ > 0, z3.And(y_ * dv <= x_, x_ < y_ * dv + y_)))
            new.append(z3.Implies(z3.And(y_ > 0, x_ >= 0), z3.And(
                dv >= 0, dv <= x_, y_ * dv >= dv)))

        def add(key, fn):
            if key in done:
                return
            done.add(key)
            r = fn()
            if isinstance(r, list):
                new.extend(r)
            else:
                new.append(r)

        for name, d in apps.items():
            if name in RANGED:
                lo, hi = RANGED[name]
                for h, x in d.items():
                    if not z3.is_arith(x):
                        continue
                    add(("rng", h), lambda: [x >= lo] + ([] if hi is None else [x <= hi]))
            elif name == "inf":
                add("inf", lambda: [INF > z3.RealVal(10) ** 30]
                    if False else [INF > z3.RealVal("1000000000000000000000000000000")])
            elif name in ("cos", "sin"):
                for h, x in d.items():
                    t = x.arg(0)
                    add(("trig", t.get_id()), lambda: [
                        COS(t) * COS(t) + SIN(t) * SIN(t) == 1,
                        COS(t) <= 1, COS(t) >= -1, SIN(t) <= 1, SIN(t) >= -1,
                        z3.Implies(t == 0, z3.And(COS(t) == 1, SIN(t) == 0))])
            elif name == "isint":
                for h, x in d.items():
                    add(("isint", h), lambda: x == z3.IsInt(x.arg(0)))
            elif name == "sqrt":
                for h, x in d.items():
                    t = x.arg(0)
                    add(("sqrt", h), lambda: [
                        x >= 0, z3.Implies(t >= 0, x * x == t)])
            elif name == "hypot":
                for h, x in d.items():
                    a, b = x.arg(0), x.arg(1)
                    add(("hyp", h), lambda: [x >= 0, x * x == a * a + b * b])
            elif name == "atan2":
                for h, x in d.items():
                    y_, x_ = x.arg(0), x.arg(1)
                    hy = HYPOT(x_, y_)
                    add(("at2", h), lambda: [
                        x > -PI, x <= PI, hy >= 0,
                        hy * hy == x_ * x_ + y_ * y_,
                        x_ == hy * COS(x), y_ == hy * SIN(x)])
            elif name in REG.by_name:
                ent = REG.by_name[name]
                if ent["kind"] == "sum":
                    groups = {}
                    for h, x in d.items():
                        ps = tuple(x.arg(i) for i in range(1, x.num_args()))
                        groups.setdefault(tuple(p.get_id() for p in ps),
                                          (ps, {}))[1][x.arg(0).get_id()] = x
                    nn = body_nonneg(ent)
                    for gid, (ps, xs) in groups.items():
                        lst = list(xs.values())
                        for x in lst:
                            k = x.arg(0)
                            zero = z3.IntVal(0) if x.sort() == I else z3.RealVal(0)
                            add(("s0", x.get_id()), lambda: [
                                z3.Implies(k <= 0, x == zero)])
                            if nn:
                                add(("snn", x.get_id()), lambda: [x >= 0])
                            if rnd == 0:
                                km = simp(k - 1)
                                add(("su", x.get_id()), lambda: [
                                    z3.Implies(k > 0, x == ent["f"](km, *ps) +
                                               ent_body(ent, km, ps))])
                        if len(lst) > 40:
                            continue
                        for x, y in itertools.permutations(lst, 2):
                            a, b = x.arg(0), y.arg(0)
                            key = ("sp", x.get_id(), y.get_id())
                            if key in done:
                                continue
                            ba = ent_body(ent, a, ps)

                            def pair():
                                r = [z3.Implies(z3.And(b == a + 1, a >= 0),
                                                y == x + ba)]
                                if nn:
                                    r.append(z3.Implies(a <= b, x <= y))
                                    r.append(z3.Implies(z3.And(0 <= a, a < b),
                                                        x + ba <= y))
                                return r
                            add(key, pair)
                elif ent["kind"] == "rec":
                    byk = {}
                    for h, x in d.items():
                        k = x.arg(0)
                        ps = tuple(x.arg(i) for i in range(1, x.num_args()))
                        byk.setdefault(tuple(p.get_id() for p in ps), []).append((k, x, ps))
                        add(("r0", h), lambda: [z3.Implies(k <= 0, x == rec_sub(ent["init"], ent, None, None, ps))])
                        if rnd == 0:
                            km = simp(k - 1)
                            prev = [g["f"](km, *ps) for g in ent["group"]]
                            add(("ru", h), lambda: [z3.Implies(k > 0, x == rec_sub(
                                ent["body"], ent, km, prev, ps))])
                    for lst in byk.values():
                        if len(lst) > 12:
                            continue
                        for (ka, xa, ps), (kb, xb, _) in itertools.permutations(lst, 2):
                            prev = [g["f"](ka, *ps) for g in ent["group"]]
                            add(("rp", xa.get_id(), xb.get_id()), lambda: [
                                z3.Implies(z3.And(kb == ka + 1, ka >= 0),
                                           xb == rec_sub(ent["body"], ent, ka, prev, ps))])
                    if fold_kind(ent):
                        lst = list(d.values())
                        for x in lst:
                            add(("mf", x.get_id()), lambda: min_facts(ent, x))
                            for j in min_candidates(ent, x, apps):
                                add(("mfi", x.get_id(), j.get_id()), lambda: min_instance(ent, x, j))
                        if len(lst) <= 6:
                            for x, y in itertools.permutations(lst, 2):
                                add(("mfp", x.get_id(), y.get_id()), lambda: min_pair(ent, x, y))
                elif ent["kind"] == "loc":
                    # find the sum entry over the same body
                    for h, x in d.items():
                        i = x.arg(0)
                        ps = tuple(x.arg(n) for n in range(1, x.num_args()))
                        bodyJ = z3.Int("%locJ")
                        bt = z3.substitute(ent["body"], (ent["J"], bodyJ),
                                           *zip(ent["params"], ps))
                        s_at_p = sum_term(bt, bodyJ, x)
                        bp = ent_body(ent, x, ps)
                        # all totals S(K) of this family in scope
                        Ks = []
                        if z3.is_app(s_at_p) and s_at_p.decl().name() in REG.by_name:
                            sn = s_at_p.decl().name()
                            for hh, y in collect_apps(terms + out).get(sn, {}).items():
                                same_ps = all(y.arg(n).eq(s_at_p.arg(n))
                                              for n in range(1, y.num_args()))
                                if same_ps and not y.arg(0).eq(x):
                                    Ks.append((y.arg(0), y))
                        for K, SK in Ks:
                            add(("loc", h, K.get_id()), lambda: [
                                z3.Implies(z3.And(i >= 0, i < SK, K >= 0),
                                           z3.And(x >= 0, x < K, s_at_p <= i,
                                                  i < s_at_p + bp))])
        if not new:
            break
        out.extend(new)
    return out


def flatten(hyps):
    out = []
    for h in hyps:
        if z3.is_and(h):
            out.extend(flatten(h.children()))
        elif z3.is_true(h):
            pass
        else:
            out.append(h)
    return out


def poly_zero(t):
    r = z3.simplify(t, som=True, mul_to_power=False)
    return z3.is_rational_value(r) and r.as_fraction() == 0 or \
        (z3.is_int_value(r) and r.as_long() == 0)


def quick_goal(goal):
    g = simp(goal)
    if z3.is_true(g):
        return True
    if z3.is_eq(g) and z3.is_arith(g.arg(0)):
        if poly_zero(g.arg(0) - g.arg(1)):
            return True
    if z3.is_and(g):
        return all(quick_goal(c) for c in g.children())
    return False


class Result:
    def __init__(self, ok, how, t, model=None, smt=None, reason=""):
        self.ok = ok
        self.how = how
        self.t = t
        self.model = model
        self.smt = smt
        self.reason = reason


def relevant(hyps, goal):
    """Keep hypotheses connected to the goal through uninterpreted symbols."""
    gn = decl_names(goal)
    if not gn:
        return list(hyps)
    hs = [(h, decl_names(h)) for h in hyps]
    keep = [False] * len(hs)
    common = {"pi", "inf", "cos", "sin"}
    changed = True
    while changed:
        changed = False
        for i, (h, n) in enumerate(hs):
            if not keep[i] and (not n or (n & gn) - common):
                keep[i] = True
                if not n <= gn:
                    gn |= n
                    changed = True
    return [h for (h, n), k in zip(hs, keep) if k]


def _run_solver(fs, timeout_ms, tactic=None):
    if tactic:
        s = z3.Tactic(tactic).solver()
    else:
        s = z3.Solver()
    s.set("timeout", int(timeout_ms))
    s.add(fs)
    t = time.process_time()
    w = time.time()
    r = s.check()
    if r == z3.unknown:
        # the limit is wall-clock time; on a busy machine the solver has not
        # had what it was given
        cpu, wall = time.process_time() - t, time.time() - w
        if wall > 0.9 * timeout_ms / 1000 and cpu < 0.7 * wall and timeout_ms >= 1000:
            s.set("timeout", int(timeout_ms * min(wall / max(cpu, 0.01), 4.0)))
            r = s.check()
    STATS.queries += 1
    STATS.time += time.process_time() - t
    return r, s


def divisors(t):
    out = {}
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(x.arg(1)):
                out[x.arg(1).get_id()] = x.arg(1)
            stack.extend(x.children())
    return list(out.values())


def cancel(hyps, goal):
    """Cancel b * (1/b) for divisors b that the hypotheses make non-zero."""
    ds = divisors(goal)
    if not ds or len(ds) > 6:
        return int_goal(goal)
    invs = []
    for b in ds:
        s = z3.Solver()
        s.set("timeout", 500)
        s.add(relevant(hyps, b == 0) + axioms([b], rounds=1) + [b == 0])
        if s.check() != z3.unsat:
            continue
        invs.append((b, z3.Const("inv!%d" % b.get_id(), R)))
    if not invs:
        return int_goal(goal)
    memo = {}

    def rw(x):
        h = x.get_id()
        if h in memo:
            return memo[h][1]
        r = x
        if z3.is_app(x) and x.num_args():
            ch = [rw(c) for c in x.children()]
            if x.decl().kind() == z3.Z3_OP_DIV:
                for b, i in invs:
                    if x.arg(1).eq(b):
                        r = ch[0] * i
                        break
                else:
                    r = ch[0] / ch[1]
            else:
                r = x.decl()(*ch)
            if r.sort() == R:
                r = poly_cancel(r, invs)
        memo[h] = (x, r)
        return r
    g = rw(goal)
    # integrality: drop integer summands
    g = z3.substitute(g, *[(i, 1 / b) for b, i in invs])
    return simp(int_goal(simp(g)))


def int_goal(g):
    """IsInt(sum of integral terms)"""
    if z3.is_app(g) and g.decl().eq(ISINT):
        t = z3.simplify(g.arg(0), som=True)
        rest = [m for m in (t.children() if z3.is_add(t) else [t]) if not integral(m)]
        if not rest:
            return TRUE
    return g


def integral(m):
    if z3.is_rational_value(m):
        return m.denominator_as_long() == 1
    if not z3.is_app(m):
        return False
    k = m.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return True
    if k in (z3.Z3_OP_MUL, z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        return all(integral(c) for c in m.children())
    if k == z3.Z3_OP_ITE:
        return integral(m.arg(1)) and integral(m.arg(2))
    return False


def poly_cancel(t, invs):
    if not any(V.mentions_const(t, i) for _, i in invs):
        return t
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        return t
    r = z3.simplify(t, som=True, mul_to_power=False)
    terms = r.children() if z3.is_add(r) else [r]
    out = []
    for m in terms:
        fs = []
        work = [m]
        while work:
            x = work.pop()
            if z3.is_mul(x):
                work.extend(x.children())
            else:
                fs.append(x)
        for b, i in invs:
            while True:
                pi = next((n for n, f in enumerate(fs) if f.eq(i)), None)
                pb = next((n for n, f in enumerate(fs) if f.eq(b)), None)
                if pi is None or pb is None:
                    break
                for n in sorted((pi, pb), reverse=True):
                    del fs[n]
        p = z3.RealVal(1)
        for f in fs:
            p = p * f
        out.append(p)
    s = out[0]
    for m in out[1:]:
        s = s + m
    return z3.simplify(s)


def check(hyps, goal, timeout=10.0, want_model=False, rounds=2):
    """Is goal a consequence of hyps?"""
    t0 = time.process_time()
    if quick_goal(goal):
        return Result(True, "simplifier", time.process_time() - t0)
    hyps = flatten(hyps)
    g2 = cancel(hyps, goal)
    if not g2.eq(goal):
        goal = g2
        if quick_goal(goal):
            return Result(True, "simplifier", time.process_time() - t0)
    ng = simp(z3.Not(goal))
    hyps = relevant(hyps, goal)
    ax = axioms(hyps + [goal], rounds=rounds)
    fs = hyps + ax + [ng]
    r, s = _run_solver(fs, timeout * 1000 * 0.5)
    if r == z3.unsat:
        return Result(True, "z3", time.process_time() - t0)
    if r == z3.sat:
        m = s.model() if want_model else None
        return Result(False, "z3", time.process_time() - t0, model=m, reason="sat")
    # second attempt: nonlinear real arithmetic tactic
    for tac in ("qfnra-nlsat", "qfnra"):
        try:
            r, s = _run_solver(fs, timeout * 1000 * 0.25, tac)
        except z3.Z3Exception:
            continue
        if r == z3.unsat:
            return Result(True, "z3/" + tac, time.process_time() - t0)
        if r == z3.sat:
            m = s.model() if want_model else None
            return Result(False, "z3/" + tac, time.process_time() - t0, model=m,
                          reason="sat")
    return Result(False, "z3", time.process_time() - t0, reason="unknown")


def to_smt2(hyps, goal, ranged=None):
    hyps = relevant(flatten(hyps), goal)
    with ranges(ranged):
        ax = axioms(hyps + [goal])
    s = z3.Solver()
    s.add(hyps + ax + [simp(z3.Not(goal))])
    return "(set-logic ALL)\n" + s.to_smt2()


# ------------------------------------------------------------------ induction

def sum_apps(t):
    out = []
    apps = collect_apps([t])
    for n, d in apps.items():
        e = REG.by_name.get(n)
        if e and e["kind"] in ("sum", "rec"):
            out.extend(d.values())
    return out


def index_cases(goal):
    """(const, term, atom) for conditions const == term on indexes in the goal"""
    out, seen, stack = [], set(), [goal]
    while stack:
        x = stack.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if z3.is_eq(x) and x.arg(0).sort() == I and not x.eq(goal):
            for a, b in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and not mentions_const(b, a):
                    out.append((a, b, x))
                    break
        stack.extend(x.children())
    return out


def by_cases(hyps, goal, timeout):
    """split on one index equality of the goal and rewrite with it"""
    for a, b, atom in index_cases(goal)[:2]:
        h1 = [simp(z3.substitute(h, (a, b))) for h in hyps]
        r1 = check(h1, simp(z3.substitute(goal, (a, b))), timeout)
        if not r1.ok:
            continue
        r2 = check(list(hyps) + [simp(Not(atom))], simp(z3.substitute(goal, (atom, FALSE))), timeout)
        if r2.ok:
            return Result(True, "cases+" + r2.how, r1.t + r2.t)
    return None


def int_conditions(terms):
    """conditions of the integer-valued conditionals, smallest first"""
    out, seen, stack = {}, set(), list(terms)
    while stack:
        x = stack.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_ITE and x.sort() == I:
            c = x.arg(0)
            while z3.is_not(c):
                c = c.arg(0)
            if not z3.is_and(c) and not z3.is_or(c):
                out[c.get_id()] = c
        stack.extend(x.children())
    return sorted(out.values(), key=lambda c: (len(c.sexpr()), c.sexpr()))


def pinned(hyps, goal):
    """(constant of the goal, e) where the hypotheses hold it between e and e"""
    lo, hi, out = {}, {}, []
    for h in hyps:
        c = h
        while z3.is_not(c):
            c = c.arg(0)
        if not z3.is_app(c) or c.decl().kind() not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) \
                or c.arg(0).sort() != I:
            continue
        for J in V.free_consts(c):
            if J.sort() != I or "!" not in J.decl().name():
                continue
            th = V.threshold(h, J)
            if th is None or th[0] not in ("le", "gt"):
                continue
            e = th[1] if th[0] == "le" else simp(th[1] + 1)
            (hi if th[0] == "le" else lo)[(J.get_id(), e.get_id())] = (J, e)
    for k, (J, e) in hi.items():
        if k in lo and mentions_const(goal, J):
            out.append((J, e))
    return out


def outer_conditions(goal):
    """conditions of the outermost conditionals of an equation"""
    if not z3.is_eq(goal):
        return []
    return [s.arg(0) for s in goal.children() if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_ITE]


def quotients(hyps, goal, budget):
    """replace integer quotients of the goal that are an index of the goal"""
    while budget[0] > 0:
        divs = [d for d in _all_of(goal, z3.Z3_OP_IDIV) if not z3.is_int_value(d.arg(1))]
        ks = {k.get_id(): k for k in V.free_consts(goal) if k.sort() == I and "!" in k.decl().name()}
        for x in _all_of(goal, z3.Z3_OP_UNINTERPRETED):
            ks.update((a.get_id(), a) for a in x.children()
                      if a.sort() == I and not z3.is_int_value(a) and not _all_of(a, z3.Z3_OP_IDIV))
        ks = list(ks.values())[:16]
        for d in divs:
            k = next((k for k in ks if not mentions_const(d, k) and check(hyps, d == k, 0.4).ok), None)
            budget[0] -= 0.1
            if k is not None:
                goal = simp(z3.substitute(goal, (d, k)))
                break
        else:
            return goal
    return goal


def _all_of(t, kind):
    out, seen, stack = [], set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().kind() == kind:
            out.append(x)
        stack.extend(x.children())
    return out


def by_split(hyps, goal, timeout, depth=3, budget=None):
    """settle or split on the conditions of integer-valued conditionals"""
    if budget is None:
        budget = [timeout]
    t0 = time.process_time()
    hyps = flatten(hyps)
    hyps = relevant(hyps, goal)
    changed = True
    while changed:
        changed = False
        for c in int_conditions([goal])[:6]:
            for v, g in ((TRUE, c), (FALSE, Not(c))):
                if check(hyps, simp(g), 0.5).ok:
                    hyps = [h for h in (simp(z3.substitute(h, (c, v))) for h in hyps) if not is_true(h)] + [simp(g)]
                    goal = simp(z3.substitute(goal, (c, v)))
                    changed = True
                    break
            if changed:
                break
        if any(is_false(h) for h in hyps):
            return Result(True, "split", time.process_time() - t0)
    # an index held between equal bounds is that bound
    for J, e in pinned(hyps, goal):
        hyps = [x for x in (simp(z3.substitute(x, (J, e))) for x in hyps) if not is_true(x)]
        goal = simp(z3.substitute(goal, (J, e)))
        break
    cs = int_conditions([goal])
    budget[0] -= time.process_time() - t0
    if budget[0] <= 0:
        return None
    if not cs or depth <= 0:
        goal = quotients(hyps, goal, budget)
        r = check(hyps, goal, min(timeout, 2.0 if depth > -3 else 5.0))
        budget[0] -= r.t
        if r.ok:
            return Result(True, "split+" + r.how, time.process_time() - t0)
        cs = outer_conditions(goal)
        if not cs or depth <= -3:
            return None
        depth = min(depth, 0)
    c = cs[0]
    for v, g in ((TRUE, c), (FALSE, Not(c))):
        h = [simp(z3.substitute(x, (c, v))) for x in hyps] + [simp(g)]
        if any(is_false(x) for x in h):
            continue
        if by_split(h, simp(z3.substitute(goal, (c, v))), timeout, depth - 1, budget) is None:
            return None
    return Result(True, "split", time.process_time() - t0)


def summand_facts(hyps, goal):
    """unfold the sums in the goal where one of their summands is spoken of"""
    hyps = flatten(hyps)
    goal = simp(goal)
    terms = relevant(hyps, goal) + [goal]
    apps = collect_apps(terms)
    out = []
    for x in sum_apps(goal):
        ent = REG.by_name[x.decl().name()]
        if ent["kind"] != "sum":
            continue
        b = ent["body"]
        if not (z3.is_app(b) and b.decl().kind() == z3.Z3_OP_UNINTERPRETED and b.num_args() == 1 and b.arg(0).eq(ent["J"])):
            continue
        ps = [x.arg(n) for n in range(1, x.num_args())]
        for y in list(apps.get(b.decl().name(), {}).values())[:8]:
            t = y.arg(0)
            k1 = simp(t + 1)
            out.append(z3.Implies(t >= 0, ent["f"](k1, *ps) == ent["f"](t, *ps) + y))
    return out


def prove(hyps, goal, timeout=10.0, want_model=False, induct=True):
    cases = bool(index_cases(simp(goal)))
    r = check(hyps, goal, min(timeout, 3.0) if cases else timeout, want_model)
    if r.ok or not induct:
        return r
    goal = simp(goal)
    more = summand_facts(hyps, goal)
    if more:
        r2 = check(list(hyps) + more, goal, timeout * 0.5)
        if r2.ok:
            r2.t += r.t
            return r2
    if cases:
        c = by_cases(hyps, goal, timeout * 0.5)
        if c is not None:
            c.t += r.t
            return c
        if r.reason != "sat" and timeout > 3.0:
            r = check(hyps, goal, timeout, want_model)
            if r.ok:
                return r
    apps = sum_apps(goal)
    t0 = time.process_time()
    tried = set()
    for x in apps:
        k = x.arg(0)
        if z3.is_int_value(k) or k.get_id() in tried:
            continue
        tried.add(k.get_id())
        kk = fresh_int("ind")
        g = z3.substitute(goal, (k, kk))
        if not mentions_const(g, kk):
            continue
        g0 = simp(z3.substitute(g, (kk, ZERO)))
        b = check(hyps, g0, timeout * 0.5)
        if not b.ok:
            continue
        g1 = simp(z3.substitute(g, (kk, simp(kk + 1))))
        st = check(list(hyps) + [g, kk >= 0, kk < k], g1, timeout * 0.5)
        if not st.ok:
            continue
        neg = check(list(hyps) + [k < 0], goal, timeout * 0.5)
        if neg.ok:
            return Result(True, "induction+" + st.how, r.t + time.process_time() - t0)
    if int_conditions([goal]):
        c = by_split(hyps, goal, timeout)
        if c is not None:
            c.t += r.t
            return c
    r.t += time.process_time() - t0
    return r


# --------------------------------------------------- families with equal bodies

def _hard(t):
    """conditions or integer division inside"""
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
                return True
            stack.extend(x.children())
    return False


def _unify(reg, canon, sub):
    """an existing family whose summand provably equals this one for every
    index and parameter, and the order its parameters are given in"""
    hard = _hard(canon)
    if not hard and canon.sort() == I:
        return None, None
    names = decl_names(canon)
    mine = [v for _, v in sub[1:]]
    for ent in list(reg.by_name.values()):
        if ent["kind"] != "sum" or ent["body"].sort() != canon.sort():
            continue
        ps = ent["params"]
        if len(ps) != len(mine) or sorted(str(a.sort()) for a in ps) != sorted(str(b.sort()) for b in mine):
            continue
        if not hard and not ent.setdefault("hard", _hard(ent["body"])):
            if canon.sort() == R and decl_names(ent["body"]) == names and len(ps) <= 4:
                for order in itertools.permutations(range(len(ps))):
                    if any(ps[k].sort() != mine[i].sort() for k, i in enumerate(order)):
                        continue
                    b = z3.substitute(ent["body"], *[(ps[k], mine[i]) for k, i in enumerate(order)]) if ps else ent["body"]
                    if poly_zero(b - canon):
                        return ent, order
            continue
        if any(str(a.sort()) != str(b.sort()) for a, b in zip(ps, mine)):
            continue
        if not ((decl_names(ent["body"]) & names) - {"%J"}):
            continue
        if check([], ent["body"] == canon, 1.0).ok:
            return ent, None
    return None, None


REG.unify = _unify
