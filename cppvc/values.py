"""Symbolic values.

Every value is first-order data over z3 terms (no Python closures inside), so
that substitution (instantiating a loop counter) is well defined everywhere.
double -> Real, integers -> Int, bool -> Bool.
"""
import itertools
import z3

R = z3.RealSort()
I = z3.IntSort()
B = z3.BoolSort()

_ctr = itertools.count()


def uid(prefix):
    return "%s!%d" % (prefix, next(_ctr))


def fresh_int(p="k"):
    return z3.Int(uid(p))


def fresh_real(p="r"):
    return z3.Real(uid(p))


class Unsupported(Exception):
    """The code is outside the verifier's reach (never a violation)."""


def lit(n):
    return z3.IntVal(n)


ZERO = z3.IntVal(0)
ONE = z3.IntVal(1)
TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


_simp_cache = {}


def simp(t):
    return z3.simplify(t, arith_lhs=False)


def is_true(t):
    return z3.is_true(t)


def is_false(t):
    return z3.is_false(t)


def And(*a):
    a = [x for x in a if not z3.is_true(x)]
    if any(z3.is_false(x) for x in a):
        return FALSE
    if not a:
        return TRUE
    if len(a) == 1:
        return a[0]
    return z3.And(*a)


def Or(*a):
    a = [x for x in a if not z3.is_false(x)]
    if any(z3.is_true(x) for x in a):
        return TRUE
    if not a:
        return FALSE
    if len(a) == 1:
        return a[0]
    return z3.Or(*a)


def Not(a):
    return simp(z3.Not(a))


def Implies(a, b):
    if z3.is_true(a):
        return b
    if z3.is_false(a) or z3.is_true(b):
        return TRUE
    return z3.Implies(a, b)


# a hook the executor installs: given a Bool term, returns True/False/None
# according to what is known on the current path.
_decider = [None]


def decide(c):
    c = simp(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    if _decider[0] is not None:
        return _decider[0](c)
    return None


def ite(c, a, b):
    """If-then-else on z3 terms."""
    c = simp(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    if a.sort() != b.sort():
        if a.sort() == R and b.sort() == I:
            b = z3.ToReal(b)
        elif a.sort() == I and b.sort() == R:
            a = z3.ToReal(a)
    return z3.If(c, a, b)


# ---------------------------------------------------------------- composites

class Struct:
    __slots__ = ("ty", "f")

    def __init__(self, ty, f):
        self.ty = ty
        self.f = f

    def with_field(self, name, v):
        f = dict(self.f)
        f[name] = v
        return Struct(self.ty, f)

    def __repr__(self):
        return "%s{%s}" % (self.ty, ", ".join("%s=%r" % kv for kv in self.f.items()))


class SVar:
    """sleipnir::Variable: den = its value under the solver's assignment;
    node = identity of a decision variable ('site', (indices)) or None."""
    __slots__ = ("den", "node", "dec")

    def __init__(self, den, node=None):
        self.den = den
        self.node = node

    def __repr__(self):
        return "SVar(%s)" % (self.den,)


class ConsV:
    """EqualityConstraints / InequalityConstraints: residual = 0 / >= 0.
    items: list of items as in Log."""
    __slots__ = ("kind", "items")

    def __init__(self, kind, items):
        self.kind = kind
        self.items = items


class Log:
    """The set of constraints submitted to a problem.
    item = ('c', guard, kind, residual) or ('all', J, k, (items...))"""
    __slots__ = ("base", "items")

    def __init__(self, base, items=()):
        self.base = base          # identity token of the symbolic prefix
        self.items = tuple(items)

    def add(self, items):
        return Log(self.base, self.items + tuple(items))


class Trace:
    """An ordered record of effects (calls into user callbacks and the like).
    item = ('ev', guard, name, args) or ('all', J, k, items)"""
    __slots__ = ("base", "items")

    def __init__(self, base, items=()):
        self.base = base
        self.items = tuple(items)

    def add(self, items):
        return Trace(self.base, self.items + tuple(items))


class Ref:
    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell = cell
        self.path = tuple(path)

    def field(self, name):
        return Ref(self.cell, self.path + (name,))

    def index(self, i):
        return Ref(self.cell, self.path + (i,))

    def __repr__(self):
        return "Ref(%s,%s)" % (self.cell, self.path)


class Iter:
    __slots__ = ("ref", "idx")

    def __init__(self, ref, idx):
        self.ref = ref
        self.idx = idx


class BackInserter:
    __slots__ = ("ref",)

    def __init__(self, ref):
        self.ref = ref


class Closure:
    """A lambda: the call operator(s), captured environment."""
    __slots__ = ("ops", "env", "this", "key")

    def __init__(self, ops, env, this, key):
        self.ops = ops
        self.env = env      # decl id -> Ref
        self.this = this    # Ref or None
        self.key = key


class FuncV:
    """An opaque callable (std::function handed in by the user)."""
    __slots__ = ("name", "args")

    def __init__(self, name, args=()):
        self.name = name
        self.args = tuple(args)


class Variant:
    """tag: Int term; alts: list of (type, value or None)."""
    __slots__ = ("tag", "alts", "types")

    def __init__(self, types, tag, alts):
        self.types = types
        self.tag = tag
        self.alts = alts


class Opaque:
    """A value we do not interpret. Equal only if same key (and args)."""
    __slots__ = ("key", "args")

    def __init__(self, key, args=()):
        self.key = key
        self.args = tuple(args)

    def __repr__(self):
        return "Opaque(%s)" % (self.key,)


class Unit:
    def __repr__(self):
        return "()"


UNIT = Unit()

# ---------------------------------------------------------------- sequences


class Sym:
    """k elements; element J is `elem` (a template over the Int constant J)."""
    __slots__ = ("n", "J", "elem", "tag", "memo")

    def __init__(self, n, J, elem, tag=None):
        self.n = n
        self.J = J
        self.elem = elem
        self.tag = tag
        self.memo = {}

    def size(self):
        return self.n

    def at(self, i):
        h = i.get_id()
        r = self.memo.get(h)
        if r is None:
            r = self.memo[h] = (i, subst(self.elem, [(self.J, i)]))
        return r[1]


class One:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def size(self):
        return ONE

    def at(self, i):
        return self.v


class Flat:
    """concatenation, for J = 0..k-1, of the sequences inner(J)."""
    __slots__ = ("k", "J", "inner")

    def __init__(self, k, J, inner):
        self.k = k
        self.J = J
        self.inner = inner

    def size(self):
        return sum_term(self.inner.size(), self.J, self.k)

    def at(self, i):
        ln = self.inner.size()
        p = locate_term(ln, self.J, i)
        off = sum_term(ln, self.J, p)
        inner = subst(self.inner, [(self.J, p)])
        return inner.at(simp(i - off))


class IteP:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b

    def size(self):
        return ite(self.c, self.a.size(), self.b.size())

    def at(self, i):
        return merge(self.c, lambda: self.a.at(i), lambda: self.b.at(i))


class UpdP:
    __slots__ = ("base", "i", "v")

    def __init__(self, base, i, v):
        self.base = base
        self.i = i
        self.v = v

    def size(self):
        return self.base.size()

    def at(self, j):
        return merge(simp(j == self.i), lambda: self.v,
                     lambda: self.base.at(j))


class PointP:
    """base with, for J in [0,k), element (J + c) replaced by elem(J)."""
    __slots__ = ("base", "c", "k", "J", "elem")

    def __init__(self, base, c, k, J, elem):
        self.base = base
        self.c = c
        self.k = k
        self.J = J
        self.elem = elem

    def size(self):
        return self.base.size()

    def at(self, j):
        o = simp(j - self.c)
        return merge(simp(z3.And(o >= 0, o < self.k)),
                     lambda: subst(self.elem, [(self.J, o)]),
                     lambda: self.base.at(j))


class BadElem:
    pass


BAD = BadElem()


class Vec:
    __slots__ = ("ety", "pieces", "_sz")

    def __init__(self, ety, pieces=()):
        self.ety = ety
        self.pieces = tuple(pieces)
        self._sz = None

    def size(self):
        if self._sz is None:
            t = ZERO
            for p in self.pieces:
                t = t + p.size()
            self._sz = simp(t)
        return self._sz

    def at(self, i):
        i = simp(i)
        ps = self.pieces
        if not ps:
            return BAD

        def rec(idx, off):
            p = ps[idx]
            if idx == len(ps) - 1:
                return p.at(simp(i - off))
            end = simp(off + p.size())
            return merge(simp(i < end), lambda: p.at(simp(i - off)),
                         lambda: rec(idx + 1, end))
        return rec(0, ZERO)

    def append(self, v):
        return Vec(self.ety, self.pieces + (One(v),))

    def concat(self, other):
        return Vec(self.ety, self.pieces + other.pieces)

    def update(self, i, v):
        return Vec(self.ety, (UpdP(self, simp(i), v),))

    def drop_last(self):
        if self.pieces and isinstance(self.pieces[-1], One):
            return Vec(self.ety, self.pieces[:-1])
        J = fresh_int("j")
        return Vec(self.ety, (Sym(simp(self.size() - 1), J, self.at(J)),))

    def slice(self, a, b):
        """elements [a, b)"""
        a = simp(a)
        b = simp(b)
        if is_int_const(a, 0) and b.eq(self.size()):
            return self
        J = fresh_int("j")
        n = simp(b - a)
        return Vec(self.ety, (Sym(n, J, self.at(simp(J + a))),))

    def __repr__(self):
        return "Vec<%s>(%s pieces)" % (self.ety, len(self.pieces))


def is_int_const(t, n):
    return z3.is_int_value(t) and t.as_long() == n


# ------------------------------------------------------- sums and locators

class Registry:
    """Uninterpreted functions standing for Sum_{J<k} body(J) and friends,
    with what the prover needs to unfold them."""

    def __init__(self):
        self.by_key = {}
        self.by_name = {}
        self.unify = None      # installed by prove.py

    def get(self, kind, body, J, extra_sort=None):
        lifted = []
        if kind == "sum":
            body = lift_args(body, J, lifted)
        names = free_consts(body)
        params = [c for c in names if not c.eq(J)]
        sub = [(J, z3.Const("%%J", I))]
        for n, p in enumerate(params):
            sub.append((p, z3.Const("%%p%d" % n, p.sort())))
        canon = z3.substitute(body, *sub)
        key = (kind, canon.sexpr(), tuple(str(p.sort()) for p in params))
        ent, order = self.by_key.get(key, (None, None))
        if ent is None and kind == "sum" and self.unify is not None:
            ent, order = self.unify(self, canon, sub)
            if ent is not None:
                self.by_key[key] = (ent, order)
        if ent is None:
            name = "%s$%d" % (kind, len(self.by_key))
            sorts = [I] + [p.sort() for p in params]
            rng = I if kind == "loc" else body.sort()
            f = z3.Function(name, *(sorts + [rng]))
            ent = dict(kind=kind, f=f, name=name, J=sub[0][1],
                       params=[s[1] for s in sub[1:]], body=canon)
            self.by_key[key] = (ent, None)
            self.by_name[name] = ent
        if order is not None:
            params = [params[i] for i in order]
        return ent, back(params, lifted)


def back(params, lifted):
    return [z3.substitute(p, *lifted) if lifted else p for p in params]


def lift_args(t, J, lifted):
    """Index arguments that do not mention J become parameters, so that
    Sum_J f(a - 1, J) and Sum_J f(b, J) are one family at two parameters."""
    seen = {}

    def go(x):
        k = x.get_id()
        if k not in seen:
            seen[k] = build(x)
        return seen[k]

    def build(x):
        if not z3.is_app(x) or x.num_args() == 0:
            return x
        args = x.children()
        uf = x.decl().kind() == z3.Z3_OP_UNINTERPRETED
        new = []
        for a in args:
            if uf and a.sort() == I and a.num_args() > 0 and not mentions_const(a, J) and free_consts(a):
                for c, v in lifted:
                    if v.eq(a):
                        new.append(c)
                        break
                else:
                    c = fresh_int("lift")
                    lifted.append((c, a))
                    new.append(c)
            else:
                new.append(go(a))
        if all(a.eq(b) for a, b in zip(args, new)):
            return x
        return x.decl()(*new)
    return go(t)


REG = Registry()


def sum_term(body, J, k):
    body = simp(body)
    k = simp(k)
    if is_int_const(k, 0):
        return ZERO if body.sort() == I else z3.RealVal(0)
    if not mentions_const(body, J):
        if body.sort() == R:
            return simp(body * z3.ToReal(k))
        return simp(body * k)
    c = sum_cases(body, J, k)
    if c is not None:
        return c
    # affine bodies over Int are left to the uninterpreted sum as well
    ent, params = REG.get("sum", body, J)
    return ent["f"](k, *params)


def linear_in(t, J):
    """(a, b) with t == a*J + b, a an integer literal, J not in b"""
    b = simp(z3.substitute(t, (J, ZERO)))
    if mentions_const(b, J):
        return None
    a = simp(simp(z3.substitute(t, (J, ONE))) - b)
    if not z3.is_int_value(a) or not is_int_const(simp(t - a * J - b), 0):
        return None
    return a.as_long(), b


def threshold(c, J):
    """c as a comparison of J with a J-free e: ("eq"|"ne"|"le"|"gt", e)"""
    flip = False
    while z3.is_not(c):
        c, flip = c.arg(0), not flip
    if not z3.is_app(c) or c.num_args() != 2 or c.arg(0).sort() != I:
        return None
    kind = c.decl().kind()
    ab = linear_in(simp(c.arg(0) - c.arg(1)), J)
    if ab is None or abs(ab[0]) != 1:
        return None
    sg, r = ab
    e = simp(-r * sg)
    if kind == z3.Z3_OP_EQ:
        return ("ne" if flip else "eq"), e
    # normalise to  sg * J + r <= 0
    if kind == z3.Z3_OP_LE:
        pass
    elif kind == z3.Z3_OP_GE:
        sg = -sg
    elif kind == z3.Z3_OP_LT:      # not (t < 0) is t >= 0
        flip, sg = not flip, -sg
    elif kind == z3.Z3_OP_GT:
        flip = not flip
    else:
        return None
    # J <= e when sg = 1, J >= e when sg = -1
    if sg < 0:
        flip, e = not flip, simp(e - 1)
    return ("gt" if flip else "le"), e


def flats(k, J, inner):
    """pieces of the concatenation for J = 0..k-1 of inner(J): split where
    the length of inner changes from one J-free value to another"""
    ln = inner.size()
    if z3.is_app(ln) and ln.decl().kind() == z3.Z3_OP_ITE and mentions_const(ln, J):
        c, a, b = ln.children()
        th = threshold(c, J)
        if th is not None and th[0] in ("eq", "ne"):
            one, rest = (z3.BoolVal(True), z3.BoolVal(False))
            e = th[1]
            if th[0] == "ne":
                one, rest, a, b = rest, one, b, a
            if not mentions_const(b, J):
                n0 = simp(ite(e < 0, ZERO, ite(simp(e >= k), k, e)))
                n1 = simp(ite(simp(z3.And(e >= 0, e < k)), ONE, ZERO))
                others = subst(inner, [(c, rest)])
                at = simp(ite(e < 0, ZERO, simp(e + 1)))
                return (Flat(n0, J, others), Flat(n1, fresh_int("j"), subst(subst(inner, [(c, one)]), [(J, e)])),
                        Flat(simp(k - n0 - n1), J, subst(others, [(J, simp(J + at))])))
        if th is not None and th[0] in ("le", "gt") and not mentions_const(a, J) and not mentions_const(b, J):
            kind, e = th
            first, second = (z3.BoolVal(True), z3.BoolVal(False))
            if kind == "gt":
                first, second = second, first
            at = simp(ite(e < 0, ZERO, simp(e + 1)))
            n = simp(ite(e < 0, ZERO, ite(simp(e >= k), k, simp(e + 1))))
            in1 = subst(inner, [(c, first)])
            in2 = subst(subst(inner, [(c, second)]), [(J, simp(J + at))])
            return (Flat(n, J, in1), Flat(simp(k - n), J, in2))
    return (Flat(k, J, inner),)


def sum_cases(body, J, k):
    """Sum of  if J == e then A else B  and of  if J <= e then A else B,
    in closed form (k >= 0)"""
    if not (z3.is_app(body) and body.decl().kind() == z3.Z3_OP_ITE) or body.sort() != I:
        return None
    c, a, b = body.children()
    th = threshold(c, J)
    if th is None:
        return None
    kind, e = th
    if kind == "eq" or kind == "ne":
        if kind == "ne":
            a, b = b, a
        at = lambda t: simp(z3.substitute(t, (J, e)))
        return simp(sum_term(b, J, k) + ite(simp(z3.And(e >= 0, e < k)), simp(at(a) - at(b)), ZERO))
    # now: a if J <= e, or a if J > e
    if kind == "gt":
        a, b = b, a
    if mentions_const(a, J) or mentions_const(b, J):
        return None
    n = simp(ite(e < 0, ZERO, ite(e >= k, k, e + 1)))
    return simp(b * k + (a - b) * n)


def locate_term(ln, J, i):
    """The p with Sum_{j<p} ln(j) <= i < Sum_{j<=p} ln(j)."""
    ln = simp(ln)
    if is_int_const(ln, 1):
        return i
    t = locate_direct(ln, J, i)
    if t is not None:
        return t
    if not mentions_const(ln, J):
        return simp(i / ln)
    ent, params = REG.get("loc", ln, J)
    return ent["f"](i, *params)


def monomials(t):
    r = z3.simplify(t, som=True)
    out = []
    for m in (r.children() if z3.is_add(r) else [r]):
        fs, work, c = [], [m], 1
        while work:
            x = work.pop()
            if z3.is_mul(x):
                work.extend(x.children())
            elif z3.is_int_value(x):
                c *= x.as_long()
            else:
                fs.append(x)
        out.append((c, fs, m))
    return out


def locate_direct(ln, J, i):
    """p when i is visibly Sum_{j<p} ln(j) + r with 0 <= r < ln(p)"""
    if not mentions_const(ln, J):
        t, r, hit = ZERO, ZERO, False
        for c, fs, m in monomials(i):
            k = next((n for n, f in enumerate(fs) if f.eq(ln)), None)
            if k is None:
                r = r + m
            else:
                p = lit(c)
                for n, f in enumerate(fs):
                    if n != k:
                        p = p * f
                t = t + p
                hit = True
        t, r = simp(t), simp(r)
        if decide(simp(z3.And(r >= 0, r < ln))) is True:
            return t
        return None
    ent, params = REG.get("sum", ln, J)
    for c, fs, m in monomials(i):
        if c == 1 and len(fs) == 1 and z3.is_app(fs[0]) and fs[0].decl().eq(ent["f"]) and \
                all(fs[0].arg(n + 1).eq(p) for n, p in enumerate(params)):
            p = fs[0].arg(0)
            r = simp(i - fs[0])
            b = ent_body(ent, p, params)
            if decide(simp(z3.And(p >= 0, r >= 0, r < b))) is True:
                return p
    return None


def ent_body(ent, j, args):
    sub = [(ent["J"], j)] + list(zip(ent["params"], args))
    return simp(z3.substitute(ent["body"], *sub))


# ----------------------------------------------------------- term utilities

_fc_cache = {}


def free_consts(t):
    """Uninterpreted constants in t, in order of first occurrence."""
    out = []
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        h = x.get_id()
        if h in seen:
            continue
        seen.add(h)
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.append(x)
            else:
                stack.extend(reversed(x.children()))
        elif z3.is_quantifier(x):
            stack.append(x.body())
    return out


_dn = set()


def decl_names(t, out=None):
    """Names of all uninterpreted symbols (constants and functions)."""
    if out is None:
        out = set()
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        h = x.get_id()
        if h in seen:
            continue
        seen.add(h)
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                out.add(nm)
                ent = REG.by_name.get(nm)
                if ent is not None and nm not in _dn:
                    _dn.add(nm)
                    try:
                        decl_names(ent["body"], out)
                        if "init" in ent:
                            decl_names(ent["init"], out)
                    finally:
                        _dn.discard(nm)
            stack.extend(x.children())
        elif z3.is_quantifier(x):
            stack.append(x.body())
    return out


def mentions_const(t, c):
    n = c.decl().name()
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        h = x.get_id()
        if h in seen:
            continue
        seen.add(h)
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and \
                        x.decl().name() == n:
                    return True
            stack.extend(x.children())
        elif z3.is_quantifier(x):
            stack.append(x.body())
    return False


def fold_value(v, fn, acc):
    """Visit every z3 term inside a value."""
    if isinstance(v, z3.ExprRef):
        fn(v, acc)
    elif isinstance(v, Struct):
        for x in v.f.values():
            fold_value(x, fn, acc)
    elif isinstance(v, SVar):
        fn(v.den, acc)
        if v.node:
            for x in v.node[1]:
                fn(x, acc)
    elif isinstance(v, Vec):
        for p in v.pieces:
            fold_piece(p, fn, acc)
    elif isinstance(v, (Log, Trace, ConsV)):
        for it in v.items:
            fold_item(it, fn, acc)
    elif isinstance(v, Iter):
        fold_value(v.ref, fn, acc)
        fn(v.idx, acc)
    elif isinstance(v, Ref):
        for p in v.path:
            if isinstance(p, z3.ExprRef):
                fn(p, acc)
    elif isinstance(v, BackInserter):
        fold_value(v.ref, fn, acc)
    elif isinstance(v, Variant):
        fn(v.tag, acc)
        for a in v.alts:
            if a is not None:
                fold_value(a, fn, acc)
    elif isinstance(v, Opaque):
        for x in v.args:
            fold_value(x, fn, acc)
    elif isinstance(v, FuncV):
        for x in v.args:
            fold_value(x, fn, acc)
    elif isinstance(v, Closure):
        for r in v.env.values():
            fold_value(r, fn, acc)
    elif isinstance(v, (list, tuple)):
        for x in v:
            fold_value(x, fn, acc)


def fold_item(it, fn, acc):
    if it[0] == "c":
        fn(it[1], acc)
        fn(it[3], acc)
    elif it[0] == "ev":
        fn(it[1], acc)
        fold_value(list(it[3]), fn, acc)
    else:
        fn(it[2], acc)
        for x in it[3]:
            fold_item(x, fn, acc)


def fold_piece(p, fn, acc):
    if isinstance(p, Sym):
        fn(p.n, acc)
        fold_value(p.elem, fn, acc)
    elif isinstance(p, One):
        fold_value(p.v, fn, acc)
    elif isinstance(p, Flat):
        fn(p.k, acc)
        fold_value(p.inner, fn, acc)
    elif isinstance(p, IteP):
        fn(p.c, acc)
        fold_value(p.a, fn, acc)
        fold_value(p.b, fn, acc)
    elif isinstance(p, UpdP):
        fn(p.i, acc)
        fold_value(p.v, fn, acc)
        fold_value(p.base, fn, acc)
    elif isinstance(p, PointP):
        fn(p.c, acc)
        fn(p.k, acc)
        fold_value(p.elem, fn, acc)
        fold_value(p.base, fn, acc)


def value_names(v):
    acc = set()

    def fn(t, a):
        decl_names(t, a)
    fold_value(v, fn, acc)
    return acc


def tsub(t, pairs):
    if not pairs:
        return t
    pairs = [(a, b) for a, b in pairs if not a.eq(b)]
    if not pairs:
        return t
    r = z3.substitute(t, *pairs)
    if r.eq(t):
        return t
    return simp(r)


def subst(v, pairs):
    if isinstance(v, z3.ExprRef):
        return tsub(v, pairs)
    if isinstance(v, Struct):
        return Struct(v.ty, {k: subst(x, pairs) for k, x in v.f.items()})
    if isinstance(v, SVar):
        node = v.node
        if node:
            node = (node[0], tuple(tsub(x, pairs) for x in node[1]))
        return SVar(tsub(v.den, pairs), node)
    if isinstance(v, Vec):
        return Vec(v.ety, [subst_piece(p, pairs) for p in v.pieces])
    if isinstance(v, Log):
        return Log(v.base, [subst_item(i, pairs) for i in v.items])
    if isinstance(v, Trace):
        return Trace(v.base, [subst_item(i, pairs) for i in v.items])
    if isinstance(v, ConsV):
        return ConsV(v.kind, [subst_item(i, pairs) for i in v.items])
    if isinstance(v, Iter):
        return Iter(subst(v.ref, pairs), tsub(v.idx, pairs))
    if isinstance(v, Ref):
        return Ref(v.cell, [tsub(p, pairs) if isinstance(p, z3.ExprRef) else p
                            for p in v.path])
    if isinstance(v, BackInserter):
        return BackInserter(subst(v.ref, pairs))
    if isinstance(v, Variant):
        return Variant(v.types, tsub(v.tag, pairs),
                       [None if a is None else subst(a, pairs) for a in v.alts])
    if isinstance(v, Opaque):
        return Opaque(v.key, [subst(a, pairs) for a in v.args])
    if isinstance(v, FuncV):
        return FuncV(v.name, [subst(a, pairs) for a in v.args])
    if isinstance(v, Closure):
        return Closure(v.ops, {k: subst(r, pairs) for k, r in v.env.items()},
                       v.this, v.key)
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, list):
        return [subst(x, pairs) for x in v]
    return v


def subst_item(it, pairs):
    if it[0] == "c":
        return ("c", tsub(it[1], pairs), it[2], tsub(it[3], pairs))
    if it[0] == "ev":
        return ("ev", tsub(it[1], pairs), it[2],
                tuple(subst(x, pairs) for x in it[3]))
    return ("all", it[1], tsub(it[2], pairs),
            tuple(subst_item(x, pairs) for x in it[3]))


def subst_piece(p, pairs):
    if isinstance(p, Sym):
        return Sym(tsub(p.n, pairs), p.J, subst(p.elem, pairs), p.tag)
    if isinstance(p, One):
        return One(subst(p.v, pairs))
    if isinstance(p, Flat):
        return Flat(tsub(p.k, pairs), p.J, subst(p.inner, pairs))
    if isinstance(p, IteP):
        c = tsub(p.c, pairs)
        return IteP(c, subst(p.a, pairs), subst(p.b, pairs))
    if isinstance(p, UpdP):
        return UpdP(subst(p.base, pairs), tsub(p.i, pairs), subst(p.v, pairs))
    if isinstance(p, PointP):
        return PointP(subst(p.base, pairs), tsub(p.c, pairs), tsub(p.k, pairs),
                      p.J, subst(p.elem, pairs))
    raise Unsupported("piece %r" % (p,))


# ------------------------------------------------------------------- merging

def merge(c, a, b):
    """if c then a else b; a and b may be thunks."""
    d = decide(c)
    if d is True:
        return a() if callable(a) and not isinstance(a, z3.ExprRef) else a
    if d is False:
        return b() if callable(b) and not isinstance(b, z3.ExprRef) else b
    if callable(a) and not isinstance(a, z3.ExprRef):
        a = a()
    if callable(b) and not isinstance(b, z3.ExprRef):
        b = b()
    return merge_v(c, a, b)


def same_piece(p, q):
    if p is q:
        return True
    if type(p) is not type(q):
        return False
    return same_value_piece(p, q)


def same_value_piece(p, q):
    if isinstance(p, One):
        return same(p.v, q.v)
    if isinstance(p, Sym):
        return p.n.eq(q.n) and (same(p.elem, q.elem) if p.J.eq(q.J)
                                else same(p.elem, subst(q.elem, [(q.J, p.J)])))
    if isinstance(p, Flat):
        return p.k.eq(q.k) and (same(p.inner, q.inner) if p.J.eq(q.J)
                                else same(p.inner, subst(q.inner, [(q.J, p.J)])))
    if isinstance(p, IteP):
        return p.c.eq(q.c) and same(p.a, q.a) and same(p.b, q.b)
    if isinstance(p, UpdP):
        return p.i.eq(q.i) and same(p.v, q.v) and same(p.base, q.base)
    if isinstance(p, PointP):
        return p.c.eq(q.c) and p.k.eq(q.k) and p.J.eq(q.J) and \
            same(p.elem, q.elem) and same(p.base, q.base)
    return False


def same_item(a, b):
    if a is b:
        return True
    if a[0] != b[0]:
        return False
    if a[0] == "c":
        return a[1].eq(b[1]) and a[2] == b[2] and a[3].eq(b[3])
    if a[0] == "ev":
        return a[1].eq(b[1]) and a[2] == b[2] and len(a[3]) == len(b[3]) and \
            all(same(x, y) for x, y in zip(a[3], b[3]))
    return a[1].eq(b[1]) and a[2].eq(b[2]) and len(a[3]) == len(b[3]) and \
        all(same_item(x, y) for x, y in zip(a[3], b[3]))


def same(a, b):
    """Syntactic identity of values."""
    if a is b:
        return True
    if isinstance(a, z3.ExprRef):
        return isinstance(b, z3.ExprRef) and a.eq(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, Struct):
        return a.f.keys() == b.f.keys() and all(same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, SVar):
        if not a.den.eq(b.den):
            return False
        return same_node(a.node, b.node)
    if isinstance(a, Vec):
        return len(a.pieces) == len(b.pieces) and \
            all(same_piece(p, q) for p, q in zip(a.pieces, b.pieces))
    if isinstance(a, (Log, Trace)):
        return a.base == b.base and len(a.items) == len(b.items) and \
            all(same_item(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, ConsV):
        return a.kind == b.kind and len(a.items) == len(b.items) and \
            all(same_item(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Ref):
        return a.cell == b.cell and len(a.path) == len(b.path) and \
            all((x.eq(y) if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef)
                 else (not isinstance(x, z3.ExprRef) and
                       not isinstance(y, z3.ExprRef) and x == y))
                for x, y in zip(a.path, b.path))
    if isinstance(a, Iter):
        return same(a.ref, b.ref) and a.idx.eq(b.idx)
    if isinstance(a, BackInserter):
        return same(a.ref, b.ref)
    if isinstance(a, Variant):
        return a.tag.eq(b.tag) and all(
            (x is None and y is None) or
            (x is not None and y is not None and same(x, y))
            for x, y in zip(a.alts, b.alts))
    if isinstance(a, Opaque):
        return a.key == b.key and len(a.args) == len(b.args) and \
            all(same(x, y) for x, y in zip(a.args, b.args))
    if isinstance(a, FuncV):
        return a.name == b.name and len(a.args) == len(b.args) and \
            all(same(x, y) for x, y in zip(a.args, b.args))
    if isinstance(a, Closure):
        return a.key == b.key and a.env.keys() == b.env.keys() and \
            all(same(a.env[k], b.env[k]) for k in a.env)
    return a == b


def same_node(a, b):
    if a is None or b is None:
        return a is b
    return a[0] == b[0] and len(a[1]) == len(b[1]) and \
        all(x.eq(y) for x, y in zip(a[1], b[1]))


def merge_v(c, a, b):
    c = simp(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is BAD:
        return b
    if b is BAD:
        return a
    if same(a, b):
        return a
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return ite(c, a, b)
    if isinstance(a, Struct) and isinstance(b, Struct):
        if a.f.keys() != b.f.keys():
            raise Unsupported("merge of different struct shapes")
        return Struct(a.ty, {k: merge_v(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, SVar) and isinstance(b, SVar):
        node = None
        if a.node and b.node and a.node[0] == b.node[0]:
            node = (a.node[0], tuple(ite(c, x, y)
                                     for x, y in zip(a.node[1], b.node[1])))
        return SVar(ite(c, a.den, b.den), node)
    if isinstance(a, Vec) and isinstance(b, Vec):
        n = 0
        while n < len(a.pieces) and n < len(b.pieces) and \
                same_piece(a.pieces[n], b.pieces[n]):
            n += 1
        ra = Vec(a.ety, a.pieces[n:])
        rb = Vec(b.ety, b.pieces[n:])
        pre = a.pieces[:n]
        # keep "base with one element updated" visible under a condition
        if not pre and len(ra.pieces) == 1 and isinstance(ra.pieces[0], UpdP) \
                and same(ra.pieces[0].base, b):
            u = ra.pieces[0]
            return Vec(a.ety, (UpdP(b, u.i, merge_v(c, u.v, b.at(u.i))),))
        if not pre and len(rb.pieces) == 1 and isinstance(rb.pieces[0], UpdP) \
                and same(rb.pieces[0].base, a):
            u = rb.pieces[0]
            return Vec(a.ety, (UpdP(a, u.i, merge_v(c, a.at(u.i), u.v)),))
        if not pre and len(ra.pieces) == 1 and len(rb.pieces) == 1 and \
                isinstance(ra.pieces[0], UpdP) and \
                isinstance(rb.pieces[0], UpdP) and \
                ra.pieces[0].i.eq(rb.pieces[0].i) and \
                same(ra.pieces[0].base, rb.pieces[0].base):
            u, w = ra.pieces[0], rb.pieces[0]
            return Vec(a.ety, (UpdP(u.base, u.i, merge_v(c, u.v, w.v)),))
        if len(ra.pieces) == 1 and len(rb.pieces) == 1 and \
                isinstance(ra.pieces[0], One) and isinstance(rb.pieces[0], One):
            return Vec(a.ety, pre + (One(merge_v(c, ra.pieces[0].v,
                                                 rb.pieces[0].v)),))
        return Vec(a.ety, pre + (IteP(c, ra, rb),))
    if isinstance(a, (Log, Trace)) and type(a) is type(b):
        if a.base != b.base:
            raise Unsupported("merge of different logs")
        n = 0
        while n < len(a.items) and n < len(b.items) and \
                same_item(a.items[n], b.items[n]):
            n += 1
        items = list(a.items[:n])
        items += [guard_item(c, x) for x in a.items[n:]]
        nc = Not(c)
        items += [guard_item(nc, x) for x in b.items[n:]]
        return type(a)(a.base, items)
    if isinstance(a, ConsV) and isinstance(b, ConsV) and a.kind == b.kind:
        nc = Not(c)
        return ConsV(a.kind, [guard_item(c, x) for x in a.items] +
                     [guard_item(nc, x) for x in b.items])
    if isinstance(a, Iter) and isinstance(b, Iter) and same(a.ref, b.ref):
        return Iter(a.ref, ite(c, a.idx, b.idx))
    if isinstance(a, Ref) and isinstance(b, Ref) and a.cell == b.cell and \
            len(a.path) == len(b.path):
        path = []
        for x, y in zip(a.path, b.path):
            if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
                path.append(ite(c, x, y))
            elif not isinstance(x, z3.ExprRef) and not isinstance(y, z3.ExprRef) and x == y:
                path.append(x)
            else:
                raise Unsupported("merge of references")
        return Ref(a.cell, path)
    if isinstance(a, Variant) and isinstance(b, Variant):
        alts = []
        for x, y in zip(a.alts, b.alts):
            if x is None:
                alts.append(y)
            elif y is None:
                alts.append(x)
            else:
                alts.append(merge_v(c, x, y))
        return Variant(a.types, ite(c, a.tag, b.tag), alts)
    if isinstance(a, (Opaque,)) or isinstance(b, (Opaque,)):
        return Opaque("ite", (c, a, b))
    raise Unsupported("cannot merge %s with %s" % (type(a).__name__,
                                                   type(b).__name__))


def guard_item(c, it):
    if it[0] == "c":
        return ("c", simp(And(c, it[1])), it[2], it[3])
    if it[0] == "ev":
        return ("ev", simp(And(c, it[1])), it[2], it[3])
    return ("all", it[1], it[2], tuple(guard_item(c, x) for x in it[3]))
