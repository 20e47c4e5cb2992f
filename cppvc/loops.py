"""Loop summarisation: guess a closed form for every location a loop modifies,
then verify it as an inductive invariant (named obligations)."""
import z3

import types_ as T
import values as V
import prove as P
from values import *

LAZY = ("val:", "static:", "global:", "$trace")


# ------------------------------------------------------------- iteration

def one_iteration(ex, st, fc, fb, fi, K, assume_cond=True):
    """Run cond, body, inc once from st (modified).  -> (post, exits)"""
    st.loops = st.loops + (K,)
    c = fc(st)
    if assume_cond:
        st.assume(c)
    outs = fb(st)
    norm = []
    exits = []
    for s, fl, v in outs:
        if fl in ("normal", "continue"):
            norm.append((s, None))
        else:
            exits.append((s, fl, v))
    if not norm:
        return None, exits
    s = norm[0][0] if len(norm) == 1 else ex.join_list(norm)[0]
    ex.cur = s
    fi(s)
    s.loops = s.loops[:-1]
    return s, exits


# --------------------------------------------------------------- locations

def lockey(loc):
    cell, path = loc
    return (cell,) + tuple(p if isinstance(p, str) else "[%s]" % p.sexpr() for p in path)


def diff(pre, post, loc, vary, out):
    """collect the modified locations below loc"""
    if V.same(pre, post):
        return
    if isinstance(pre, Struct) and isinstance(post, Struct) and \
            pre.f.keys() == post.f.keys():
        for k in pre.f:
            diff(pre.f[k], post.f[k], (loc[0], loc[1] + (k,)), vary, out)
        return
    if isinstance(pre, Vec) and isinstance(post, Vec) and len(post.pieces) == 1 \
            and isinstance(post.pieces[0], UpdP):
        u = post.pieces[0]
        names = V.decl_names(u.i)
        if not (names & vary):
            base, old = None, None
            if V.same(u.base, pre):
                base, old = pre, pre.at(u.i)
            elif len(pre.pieces) == 1 and isinstance(pre.pieces[0], UpdP) and \
                    pre.pieces[0].i.eq(u.i) and V.same(pre.pieces[0].base, u.base):
                base, old = pre, pre.pieces[0].v
            if base is not None:
                diff(old, u.v, (loc[0], loc[1] + (u.i,)), vary, out)
                return
    out[lockey(loc)] = loc


def prior_of(ex, v, nm):
    """an arbitrary value of the same shape -> (value, names, vecfuns)"""
    if isinstance(v, z3.ExprRef):
        return z3.Const(nm, v.sort())
    if isinstance(v, SVar):
        return SVar(z3.Real(nm))
    if isinstance(v, Vec):
        n = nm + ".size"
        P.RANGED[n] = (0, 2 ** 60)
        J = fresh_int("j")
        if v.ety == "val":
            e = _valshape(v, nm, (J,))
        else:
            e = ex.fresh(T.parse(v.ety), nm + "[]", (J,))
        sz = z3.Int(n)
        if v.ety == "val":
            sz = v.pieces[0].size()
        return Vec(v.ety, (Sym(sz, J, e),))
    if isinstance(v, Log):
        return Log(nm)
    if isinstance(v, Trace):
        return Trace(nm)
    if isinstance(v, Iter):
        return Iter(v.ref, z3.Int(nm))
    if isinstance(v, ConsV):
        raise Unsupported("constraint set modified by a loop")
    return Opaque(nm)


def _valshape(v, nm, idx):
    e = v.pieces[0]
    while isinstance(e, (UpdP, PointP)):
        e = e.base.pieces[0]
    x = e.elem if isinstance(e, Sym) else None
    if isinstance(x, Vec):
        J = fresh_int("j")
        return Vec("val", (Sym(x.pieces[0].size(), J, _valshape(x, nm + "[]", idx + (J,))),))
    return z3.Function(nm + "[]", *([I] * len(idx) + [R]))(*idx)


# ------------------------------------------------------- prior replacement

class PriorMap:
    """Replace prior constants / functions by solved closed forms."""

    def __init__(self):
        self.consts = []     # (const, term)
        self.funs = {}       # function name -> (vec closed, leaf selector)

    def add(self, prior, closed):
        if isinstance(prior, z3.ExprRef):
            self.consts.append((prior, closed))
        elif isinstance(prior, SVar):
            self.consts.append((prior.den, closed.den))
        elif isinstance(prior, Iter):
            self.consts.append((prior.idx, closed.idx))
        elif isinstance(prior, Vec):
            p = prior.pieces[0]
            if z3.is_const(p.n) and p.n.decl().kind() == z3.Z3_OP_UNINTERPRETED and \
                    not p.n.eq(LIBUNB):
                self.consts.append((p.n, closed.size()))
            self._leaves(p.elem, closed, 1, [])
        elif isinstance(prior, Opaque):
            self.consts.append(("opaque", prior.key, closed))

    def _leaves(self, e, closed, depth, sel):
        """function symbols of the element template"""
        if isinstance(e, z3.ExprRef):
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                self.funs[e.decl().name()] = (closed, depth, tuple(sel))
        elif isinstance(e, SVar):
            self._leaves(e.den, closed, depth, sel + ["$den"])
        elif isinstance(e, Struct):
            for k, x in e.f.items():
                self._leaves(x, closed, depth, sel + [k])
        elif isinstance(e, Variant):
            self._leaves(e.tag, closed, depth, sel + ["$tag"])
            for i, a in enumerate(e.alts):
                if a is not None:
                    self._leaves(a, closed, depth, sel + [i])
        elif isinstance(e, Vec):
            p = e.pieces[0]
            self._leaves(p.n, closed, depth, sel + ["$size"])
            self._leaves(p.elem, closed, depth + 1, sel + ["$at"])

    def lookup(self, ent, args):
        closed, depth, sel = ent
        v = closed.at(args[0])
        k = 1
        for s in sel:
            if v is V.BAD:
                return None
            if s == "$den":
                v = v.den
            elif s == "$tag":
                v = v.tag
            elif s == "$size":
                v = v.size()
            elif s == "$at":
                v = v.at(args[k])
                k += 1
            elif isinstance(s, int):
                v = v.alts[s]
            else:
                v = v.f[s]
        return v

    def term(self, t):
        pairs = [(a, b) for a, b, *_ in [c for c in self.consts if not isinstance(c[0], str)]]
        if pairs:
            t = V.tsub(t, pairs)
        if self.funs:
            t = self._rewrite(t, {})
        return t

    def _rewrite(self, t, memo):
        h = t.get_id()
        r = memo.get(h)
        if r is not None:
            return r[1]
        r = t
        if z3.is_app(t) and t.num_args() > 0:
            ch = t.children()
            nch = [self._rewrite(c, memo) for c in ch]
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and d.name() in self.funs:
                x = self.lookup(self.funs[d.name()], nch)
                if x is not None and isinstance(x, z3.ExprRef):
                    r = x
                    r = self._rewrite2(r, memo)
            elif any(not a.eq(b) for a, b in zip(ch, nch)):
                r = simp(z3.substitute(t, *[(a, b) for a, b in zip(ch, nch) if not a.eq(b)]))
        memo[h] = (t, r)
        return r

    def _rewrite2(self, t, memo):
        return t

    def value(self, v):
        return map_value(v, self.term, self)


def map_value(v, fn, pm=None):
    if isinstance(v, z3.ExprRef):
        return fn(v)
    if isinstance(v, Struct):
        return Struct(v.ty, {k: map_value(x, fn, pm) for k, x in v.f.items()})
    if isinstance(v, SVar):
        node = v.node
        if node:
            node = (node[0], tuple(fn(x) for x in node[1]))
        return SVar(fn(v.den), node)
    if isinstance(v, Vec):
        ps = []
        for p in v.pieces:
            if isinstance(p, Sym) and is_int_const(fn(p.n), 0):
                continue
            ps.append(map_piece(p, fn, pm))
        return Vec(v.ety, ps)
    if isinstance(v, (Log, Trace)):
        return type(v)(v.base, [map_item(i, fn, pm) for i in v.items])
    if isinstance(v, ConsV):
        return ConsV(v.kind, [map_item(i, fn, pm) for i in v.items])
    if isinstance(v, Iter):
        return Iter(map_value(v.ref, fn, pm), fn(v.idx))
    if isinstance(v, Ref):
        return Ref(v.cell, [fn(p) if isinstance(p, z3.ExprRef) else p for p in v.path])
    if isinstance(v, BackInserter):
        return BackInserter(map_value(v.ref, fn, pm))
    if isinstance(v, Variant):
        return Variant(v.types, fn(v.tag), [None if a is None else map_value(a, fn, pm) for a in v.alts])
    if isinstance(v, Opaque):
        if pm is not None:
            for c in pm.consts:
                if isinstance(c[0], str) and c[1] == v.key:
                    return c[2]
        return Opaque(v.key, [map_value(a, fn, pm) for a in v.args])
    if isinstance(v, FuncV):
        return FuncV(v.name, [map_value(a, fn, pm) for a in v.args])
    if isinstance(v, Closure):
        return Closure(v.ops, {k: map_value(r, fn, pm) for k, r in v.env.items()}, v.this, v.key)
    if isinstance(v, tuple):
        return tuple(map_value(x, fn, pm) for x in v)
    return v


def map_item(it, fn, pm):
    if it[0] == "c":
        return ("c", fn(it[1]), it[2], fn(it[3]))
    if it[0] == "ev":
        return ("ev", fn(it[1]), it[2], tuple(map_value(x, fn, pm) for x in it[3]))
    return ("all", it[1], fn(it[2]), tuple(map_item(x, fn, pm) for x in it[3]))


def map_piece(p, fn, pm):
    if isinstance(p, Sym):
        return Sym(fn(p.n), p.J, map_value(p.elem, fn, pm), p.tag)
    if isinstance(p, One):
        return One(map_value(p.v, fn, pm))
    if isinstance(p, Flat):
        return Flat(fn(p.k), p.J, map_value(p.inner, fn, pm))
    if isinstance(p, IteP):
        return IteP(fn(p.c), map_value(p.a, fn, pm), map_value(p.b, fn, pm))
    if isinstance(p, UpdP):
        return UpdP(map_value(p.base, fn, pm), fn(p.i), map_value(p.v, fn, pm))
    if isinstance(p, PointP):
        return PointP(map_value(p.base, fn, pm), fn(p.c), fn(p.k), p.J, map_value(p.elem, fn, pm))
    raise Unsupported("piece")


# ----------------------------------------------------------------- solving

def mentioned(v, names):
    out = set()

    def fn(t, a):
        out.update(V.decl_names(t) & names)
    V.fold_value(v, fn, None)

    def toks(x):
        if isinstance(x, (Log, Trace)):
            if x.base in names:
                out.add(x.base)
        elif isinstance(x, Struct):
            for y in x.f.values():
                toks(y)
        elif isinstance(x, Opaque):
            if x.key in names:
                out.add(x.key)
            for y in x.args:
                toks(y)
        elif isinstance(x, (list, tuple)):
            for y in x:
                toks(y)
    toks(v)
    return out


def prior_names(prior):
    if isinstance(prior, (Log, Trace)):
        return {prior.base}
    if isinstance(prior, Opaque):
        return {prior.key}
    s = V.value_names(prior)
    s.discard("%unbounded")
    if isinstance(prior, Vec):
        s = {n for n in s if not n.startswith("j!")}
    return s


def ite_delta(post, prior):
    """post - prior, looking through if-then-else"""
    if post.eq(prior):
        return z3.RealVal(0) if prior.sort() == R else ZERO
    if z3.is_app(post) and post.decl().kind() == z3.Z3_OP_ITE:
        a = ite_delta(post.arg(1), prior)
        b = ite_delta(post.arg(2), prior)
        return ite(post.arg(0), a, b)
    return simp(post - prior)


def pull_prior(post, prior):
    """post - prior for terms where the prior occurs inside nested ites"""
    d = ite_delta(post, prior)
    if not V.mentions_const(d, prior):
        return d
    d = z3.simplify(post - prior, som=True)
    if not V.mentions_const(d, prior):
        return simp(d)
    return None


class Give(Exception):
    pass


def sum_upto(d, K):
    """sum of d(J), J < K; a sum that runs downwards is turned round (a guess
    like every closed form: it is verified afterwards)"""
    J = fresh_int("j")
    body = simp(V.tsub(d, [(K, J)]))
    c = None
    stack, seen = [body], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        stack.extend(x.children())
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            for a in x.children():
                if a.sort() == I and V.mentions_const(a, J):
                    l = V.linear_in(a, J)
                    if l is None or l[0] != -1 or (c is not None and not simp(l[1] - c).eq(ZERO)):
                        return V.sum_term(body, J, K)
                    c = l[1]
    if c is None:
        return V.sum_term(body, J, K)
    up = simp(V.tsub(body, [(J, simp(c - J))]))
    return V.sum_term(up, J, simp(c + 1)) - V.sum_term(up, J, simp(c - K + 1))


def conditions(t):
    """the conditions of the conditional terms in t"""
    seen, todo, out = set(), [t], []
    while todo:
        u = todo.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_app(u):
            if u.decl().kind() == z3.Z3_OP_ITE:
                out.append(u.arg(0))
            todo.extend(u.children())
    return out


def once(post, prior, init, K):
    """a step that is different in one iteration (K == e)"""
    for c in conditions(post):
        th = V.threshold(c, K)
        if th is not None and th[0] in ("eq", "ne") and not V.mentions_const(th[1], prior):
            break
    else:
        return None
    a, b = (simp(z3.substitute(post, (c, z3.BoolVal(t)))) for t in (True, False))
    e = th[1]
    if th[0] == "ne":
        a, b = b, a
    d = pull_prior(b, prior)
    if d is None:
        return None
    before = simp(init + sum_upto(d, K))
    there = simp(z3.substitute(a, (prior, simp(V.tsub(before, [(K, e)]))), (K, e)))
    after = simp(there + sum_upto(d, K) - V.tsub(sum_upto(d, K), [(K, simp(e + 1))]))
    return ite(simp(z3.Or(e < 0, K <= e)), before, after)


def accumulate(ex, loc, prior, post, init, K, pm):
    """closed form (value in terms of K) or None"""
    if isinstance(prior, z3.ExprRef):
        if prior.sort() == B:
            return None
        d = pull_prior(post, prior)
        if d is None:
            return once(post, prior, init, K)
        return simp(init + sum_upto(d, K))
    if isinstance(prior, SVar):
        if not isinstance(post, SVar):
            return None
        d = pull_prior(post.den, prior.den)
        if d is None:
            return None
        return SVar(simp(init.den + sum_upto(d, K)))
    if isinstance(prior, Iter):
        if not isinstance(post, Iter) or not V.same(prior.ref, post.ref):
            return None
        d = pull_prior(post.idx, prior.idx)
        if d is None:
            return None
        return Iter(init.ref, simp(init.idx + sum_upto(d, K)))
    if isinstance(prior, (Log, Trace)):
        if type(post) is not type(prior) or post.base != prior.base:
            return None
        J = fresh_int("J")
        items = tuple(V.subst_item(i, [(K, J)]) for i in post.items)
        return init.add([("all", J, K, items)])
    if isinstance(prior, Vec):
        if not isinstance(post, Vec) or not post.pieces:
            return None
        own = prior_names(prior)
        p0 = prior.pieces[0]
        if V.same_piece(post.pieces[0], p0):
            A = Vec(post.ety, post.pieces[1:])
            # own size may be used in the appended elements
            if mentioned(A, own):
                rec = vec_rec(ex, prior, A, init, K)
                if rec is not None:
                    return rec
                if not (V.decl_names(A.size()) & own):
                    J = fresh_int("j")
                    ln = V.tsub(A.size(), [(K, J)])
                    szK = simp(init.size() + V.sum_term(ln, J, K))
                    A = V.subst(A, [(p0.n, szK)])
                if mentioned(A, own):
                    return None
            J = fresh_int("j")
            if len(A.pieces) == 1 and isinstance(A.pieces[0], One):
                e = V.subst(A.pieces[0].v, [(K, J)])
                return Vec(init.ety, init.pieces + (Sym(K, J, e),))
            if not A.pieces:
                return init
            return Vec(init.ety, init.pieces + V.flats(K, J, V.subst(A, [(K, J)])))
        if len(post.pieces) == 1 and isinstance(post.pieces[0], UpdP):
            u = post.pieces[0]
            if not V.same(u.base, prior):
                return None
            sign = None
            for sg in (1, -1):
                c = simp(u.i - sg * K)
                if not V.mentions_const(c, K) and not (V.decl_names(c) & own):
                    sign = sg
                    break
            if sign is None:
                return None
            # own elements the loop has not come to yet hold what they held
            # before it: at or above c + K going up, at or below c - K down
            m = PriorMap()
            m.add(prior, init)
            bad = []
            base_lookup = m.lookup

            def lookup(ent, args):
                dd = simp(args[0] - sign * K - c)
                if not z3.is_int_value(dd) or sign * dd.as_long() < 0:
                    bad.append(args[0])
                    return None
                return base_lookup(ent, args)
            m.lookup = lookup
            v = m.value(u.v)
            if bad or mentioned(v, own):
                if sign > 0 and len(prior.pieces) == 1 and isinstance(prior.pieces[0], Sym):
                    r = running(prior, u.v, simp(K + c - 1), init.at(simp(c - 1)), K)
                    if r is not None:
                        return Vec(init.ety, (PointP(init, c, K, r[0], r[1]),))
                return None
            J = fresh_int("j")
            if sign > 0:
                return Vec(init.ety, (PointP(init, c, K, J, V.subst(v, [(K, J)])),))
            return Vec(init.ety, (PointP(init, simp(c - K + 1), K, J,
                                         V.subst(v, [(K, simp(K - 1 - J))])),))
        if len(post.pieces) == 1 and isinstance(post.pieces[0], PointP):
            return blocks(post.pieces[0], prior, init, K, own)
        if 2 <= len(post.pieces) <= 3:
            return inserted(post, init, K, own)
        return None
    return None


def inserted(post, init, K, own):
    """one element inserted per iteration, behind the one before or in front of
    it (a guess: the loop invariant decides)"""
    ones = [i for i, p in enumerate(post.pieces) if isinstance(p, One)]
    if len(ones) != 1 or ones[0] > 1:
        return None
    v = post.pieces[ones[0]].v
    at = simp(post.pieces[0].size() if ones[0] else ZERO)
    if mentioned(v, own) or V.decl_names(at) & own:
        return None
    J = fresh_int("j")
    c = simp(at - K)
    if not V.mentions_const(c, K):
        e = V.subst(v, [(K, J)])
    elif not V.mentions_const(at, K):
        c, e = at, V.subst(v, [(K, simp(K - 1 - J))])
    else:
        return None
    return Vec(init.ety, init.slice(ZERO, c).pieces + (Sym(K, J, e),) + init.slice(c, init.size()).pieces)


def blocks(p, prior, init, K, own):
    """every iteration overwrites the block of elements that follows the block
    of the iteration before"""
    if not V.same(p.base, prior) or mentioned(p.elem, own) or V.decl_names(And(p.c >= 0, p.k >= 0)) & own:
        return None
    step = simp(V.tsub(p.c, [(K, simp(K + 1))]) - p.c)
    if not P.check([K >= 0], step == p.k, 2).ok:
        return None
    J = fresh_int("j")
    inner = Vec(init.ety, (Sym(V.tsub(p.k, [(K, J)]), p.J, V.subst(p.elem, [(K, J)])),))
    o = fresh_int("j")
    return Vec(init.ety, (PointP(init, V.tsub(p.c, [(K, ZERO)]), V.sum_term(V.tsub(p.k, [(K, J)]), J, K), o,
                                 Vec(init.ety, V.flats(K, J, inner)).at(o)),))


def running(prior, v, at, first, K):
    """v is the element written in iteration K; of the vector's own elements it
    only uses the one at index `at`, which the iteration before wrote (`first`
    before the loop).  The element written in iteration J, a term over J."""
    e = prior.pieces[0].elem
    term = e.den if isinstance(e, SVar) else e
    if not isinstance(term, z3.ExprRef) or type(v) is not type(first) and not isinstance(v, z3.ExprRef):
        return None
    name = term.decl().name()
    t = v.den if isinstance(v, SVar) else v
    f0 = first.den if isinstance(first, SVar) else first
    if not isinstance(t, z3.ExprRef) or not isinstance(f0, z3.ExprRef) or t.sort() != f0.sort():
        return None
    L = z3.Const(V.uid("last"), t.sort())
    pairs = []
    for d in P.collect_apps([t]).get(name, {}).values():
        if not V.is_int_const(simp(d.arg(d.num_args() - 1) - at), 0):
            return None
        pairs.append((d, L))
    if not pairs:
        return None
    t = simp(z3.substitute(t, *pairs))
    if V.decl_names(t) & prior_names(prior):
        return None
    d = pull_prior(t, L)
    if d is None:
        return None
    J = fresh_int("j")
    r = simp(f0 + V.tsub(sum_upto(d, K), [(K, simp(J + 1))]))
    return J, (SVar(r) if isinstance(v, SVar) else r)


def vec_rec(ex, prior, A, init, K):
    """append of one element that depends on the previously appended one"""
    if len(A.pieces) != 1 or not isinstance(A.pieces[0], One):
        return None
    n = prior.pieces[0].n
    if not init.pieces:
        return None
    first = init.at(simp(init.size() - 1))
    r = running(prior, A.pieces[0].v, simp(n - 1), first, K)
    if r is None:
        return None
    J, e = r
    return Vec(init.ety, init.pieces + (Sym(K, J, e),))


def solve(ex, priors, posts, inits, locs, K):
    closed = {}
    pm = PriorMap()
    names = {k: prior_names(p) for k, p in priors.items()}
    remaining = set(priors)
    while remaining:
        progress = False
        unsolved = set().union(*[names[k] for k in remaining])
        for k in sorted(remaining):
            post = pm.value(posts[k])
            m = mentioned(post, unsolved)
            if m - names[k]:
                continue
            cl = None
            if not m:
                J = simp(K - 1)
                prev = V.subst(post, [(K, J)])
                if isinstance(post, Opaque) and V.same(post, inits[k]):
                    cl = inits[k]
                else:
                    cl = V.merge_v(simp(K <= 0), inits[k], prev)
            else:
                cl = accumulate(ex, locs[k], priors[k], post, inits[k], K, pm)
            if cl is None:
                continue
            closed[k] = cl
            pm.add(priors[k], cl)
            remaining.discard(k)
            progress = True
            break
        if not progress:
            # mutually recursive scalars: uninterpreted recursion
            grp = scalar_group(remaining, priors, posts, pm, names)
            if grp is None:
                raise Unsupported("no closed form for loop-modified " +
                                  ", ".join(sorted(str(k) for k in remaining))[:200])
            for k, cl in recurse(grp, priors, {k: pm.value(posts[k]) for k in grp}, inits, K).items():
                closed[k] = cl
                pm.add(priors[k], cl)
                remaining.discard(k)
    return closed


def scalar_group(remaining, priors, posts, pm, names):
    """smallest set of unsolved scalar locations closed under dependency"""
    best = None
    for k in sorted(remaining):
        grp = {k}
        work = [k]
        ok = True
        while work and ok:
            x = work.pop()
            if not isinstance(priors[x], (z3.ExprRef, SVar)):
                ok = False
                break
            post = pm.value(posts[x])
            if isinstance(post, SVar) != isinstance(priors[x], SVar):
                ok = False
                break
            for y in remaining:
                if y not in grp and mentioned(post, names[y]):
                    grp.add(y)
                    work.append(y)
        if ok and (best is None or len(grp) < len(best)):
            best = grp
    return sorted(best) if best else None


def _den(v):
    return v.den if isinstance(v, SVar) else v


def same_recursion(step, ini, ps):
    """an existing recursion with the same parameters whose step is provably the same"""
    names = V.decl_names(step) - {c.decl().name() for c in ps}
    for ents in V.REG.by_key.values():
        if not isinstance(ents, list) or len(ents) != 1:
            continue
        e = ents[0]
        if len(e["params"]) != len(ps) or any(a.sort() != b.sort() for a, b in zip(e["params"], ps)) or \
                e["body"].sort() != step.sort() or not e["init"].eq(ini) or \
                V.decl_names(e["body"]) - {c.decl().name() for c in ps} != names:
            continue
        if P.check([], e["body"] == step, 1.0).ok:
            return ents
    return None


def recurse(grp, priors, posts, inits, K):
    """define f_i(k): f_i(0)=init, f_i(k+1)=step_i(f(k), k)"""
    pri = [_den(priors[k]) for k in grp]
    steps = [simp(_den(posts[k])) for k in grp]
    ini = [simp(_den(inits[k])) for k in grp]
    params = []
    var = {K.decl().name()} | {p.decl().name() for p in pri}
    memo = {}

    def param(t):
        for n, p in enumerate(params):
            if p.eq(t):
                break
        else:
            n = len(params)
            params.append(t)
        return z3.Const("%%p%d" % n, t.sort())

    def ground(t):
        return not (V.decl_names(t) & var)

    def abstract(t):
        """maximal subterms that do not change become parameters"""
        r = memo.get(t.get_id())
        if r is not None:
            return r[1]
        if t.num_args() == 0 and not V.decl_names(t):
            r = t
        elif ground(t) and t.sort() != B:
            r = param(t) if V.decl_names(t) else t
        elif t.num_args() == 0:
            r = t
        else:
            ch = t.children()
            if t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL):
                g = [c for c in ch if ground(c)]
                if len(g) > 1 and any(V.decl_names(c) for c in g):
                    op = (lambda x, y: x + y) if z3.is_add(t) else (lambda x, y: x * y)
                    u = g[0]
                    for c in g[1:]:
                        u = op(u, c)
                    rest = [c for c in ch if not ground(c)]
                    r = abstract(rest[0])
                    for c in rest[1:]:
                        r = op(r, abstract(c))
                    r = op(r, param(simp(u)))
            if r is None:
                r = t.decl()(*[abstract(c) for c in ch])
        memo[t.get_id()] = (t, r)
        return r
    sub = [(K, z3.Const("%J", I))]
    for n, p in enumerate(pri):
        sub.append((p, z3.Const("%%prev%d" % n, p.sort())))
    csteps = [z3.substitute(abstract(t), *sub) for t in steps]
    cini = [abstract(t) for t in ini]
    for n, p in enumerate(params):
        sub.append((p, z3.Const("%%p%d" % n, p.sort())))
    key = ("rec", tuple(t.sexpr() for t in csteps), tuple(t.sexpr() for t in cini),
           tuple(str(p.sort()) for p in params))
    ents = V.REG.by_key.get(key)
    if ents is None and len(grp) == 1:
        ents = same_recursion(csteps[0], cini[0], [c[1] for c in sub[2:]])
    if ents is None:
        ents = []
        for n, p in enumerate(pri):
            name = "rec$%d.%d" % (len(V.REG.by_key), n)
            f = z3.Function(name, *([I] + [q.sort() for q in params] + [p.sort()]))
            ent = dict(kind="rec", f=f, name=name, J=sub[0][1],
                       params=[s[1] for s in sub[1 + len(pri):]],
                       prev=[s[1] for s in sub[1:1 + len(pri)]],
                       body=csteps[n], init=cini[n], group=ents)
            ents.append(ent)
            V.REG.by_name[name] = ent
        V.REG.by_key[key] = ents
    out = {}
    for k, ent in zip(grp, ents):
        t = ent["f"](K, *params)
        out[k] = SVar(t) if isinstance(priors[k], SVar) else t
    return out


# -------------------------------------------------------------- trip count

def trip_candidates(c, K):
    """candidate T such that c(K) holds exactly for K < T"""
    out = []
    c = simp(c)
    if z3.is_not(c):
        x = c.arg(0)
        if z3.is_le(x):
            lhs, rhs, op = x.arg(0), x.arg(1), ">"
        elif z3.is_ge(x):
            lhs, rhs, op = x.arg(0), x.arg(1), "<"
        elif z3.is_lt(x):
            lhs, rhs, op = x.arg(0), x.arg(1), ">="
        elif z3.is_gt(x):
            lhs, rhs, op = x.arg(0), x.arg(1), "<="
        elif z3.is_eq(x):
            lhs, rhs, op = x.arg(0), x.arg(1), "!="
        else:
            return out
    elif z3.is_le(c):
        lhs, rhs, op = c.arg(0), c.arg(1), "<="
    elif z3.is_ge(c):
        lhs, rhs, op = c.arg(0), c.arg(1), ">="
    elif z3.is_lt(c):
        lhs, rhs, op = c.arg(0), c.arg(1), "<"
    elif z3.is_gt(c):
        lhs, rhs, op = c.arg(0), c.arg(1), ">"
    elif z3.is_app(c) and c.decl().kind() == z3.Z3_OP_DISTINCT:
        lhs, rhs, op = c.arg(0), c.arg(1), "!="
    elif z3.is_and(c):
        for x in c.children():
            out.extend(trip_candidates(x, K))
        if len(out) >= 2:
            m = out[0]
            for t in out[1:]:
                m = ite(t < m, t, m)
            out.append(simp(m))
        return out
    elif z3.is_or(c):
        for x in c.children():
            out.extend(trip_candidates(x, K))
        return out
    else:
        return out
    if lhs.sort() == R:
        # a real quantity that moves by a constant
        L = simp(lhs - rhs)
        L0 = simp(z3.substitute(L, (K, ZERO)))
        s = z3.simplify(z3.substitute(L, (K, simp(K + 1))) - L, som=True)
        if z3.is_rational_value(s) and s.as_fraction() != 0 and (op[0] == ">") == (s.as_fraction() < 0) and op != "!=":
            x = simp(-L0 / s)
            out.append(simp(z3.ToInt(x) + 1) if op in (">=", "<=") else simp(-z3.ToInt(-x)))
        return out
    if lhs.sort() != I:
        return out
    L = simp(lhs - rhs)
    L0 = simp(z3.substitute(L, (K, ZERO)))
    s = simp(z3.simplify(z3.substitute(L, (K, simp(K + 1))) - L, som=True))
    if not z3.is_int_value(s):
        # piecewise (modular) bound: try the branches of the ite
        ites = []
        stack = [c]
        while stack:
            x = stack.pop()
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
                ites.append(x)
            stack.extend(x.children() if z3.is_app(x) else [])
        for x in ites[:2]:
            for b in (x.arg(1), x.arg(2)):
                out.extend(trip_candidates(simp(z3.substitute(c, (x, b))), K))
        return out
    s = s.as_long()
    if op in ("<", "<=") and s > 0:
        d = -L0 + (1 if op == "<=" else 0)
        t = d if s == 1 else (d + (s - 1)) / s
    elif op in (">", ">=") and s < 0:
        d = L0 + (1 if op == ">=" else 0)
        t = d if s == -1 else (d + (-s - 1)) / (-s)
    elif op == "!=" and s in (1, -1):
        t = -L0 if s == 1 else L0
    elif op == "!=" and s != 0:
        t = (-L0) / s
    else:
        return out
    t = simp(t)
    out.append(t)
    return out


# --------------------------------------------------------- value equality

def vals_equal(a, b, out, label="", hyps=()):
    """append (label, hyps, goal) proving a == b"""
    if a is b:
        return
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        if a.sort() != b.sort():
            if a.sort() == I and b.sort() == R:
                a = z3.ToReal(a)
            elif a.sort() == R and b.sort() == I:
                b = z3.ToReal(b)
            else:
                raise Unsupported("comparison of different sorts at " + label)
        out.append((label, list(hyps), simp(a == b)))
        return
    if isinstance(a, Struct) and isinstance(b, Struct):
        if a.f.keys() != b.f.keys():
            raise Unsupported("different records at " + label)
        for k in a.f:
            vals_equal(a.f[k], b.f[k], out, label + "." + k, hyps)
        return
    if isinstance(a, SVar) and isinstance(b, SVar):
        out.append((label, list(hyps), simp(a.den == b.den)))
        if a.node and b.node and a.node[0] == b.node[0]:
            for x, y in zip(a.node[1], b.node[1]):
                if not x.eq(y):
                    out.append((label + " (identity)", list(hyps), simp(x == y)))
        return
    if isinstance(a, Vec) and isinstance(b, Vec):
        if V.same(a, b):
            out.append((label, list(hyps), TRUE))
            return
        pa, pb = list(a.pieces), list(b.pieces)
        while pa and pb and V.same_piece(pa[0], pb[0]):
            pa.pop(0)
            pb.pop(0)
        if fold_match(pa, pb) or fold_match(pb, pa):
            out.append((label, list(hyps), TRUE))
            return
        ra, rb = Vec(a.ety, pa), Vec(b.ety, pb)
        out.append((label + ".size", list(hyps), simp(ra.size() == rb.size())))
        j = fresh_int("at")
        old = V._decider[0]
        x, y = ra.at(j), rb.at(j)
        if x is V.BAD or y is V.BAD:
            if x is V.BAD and y is V.BAD:
                return
            out.append((label + " (empty)", list(hyps), simp(ra.size() == 0)))
            return
        vals_equal(x, y, out, label + "[]",
                   list(hyps) + [j >= 0, j < ra.size(), j < rb.size()])
        return
    if isinstance(a, (Log, Trace)) and type(a) is type(b):
        if a.base != b.base:
            raise Unsupported("different logs at " + label)
        items_equal(list(a.items), list(b.items), out, label, hyps)
        return
    if isinstance(a, Iter) and isinstance(b, Iter) and V.same(a.ref, b.ref):
        out.append((label, list(hyps), simp(a.idx == b.idx)))
        return
    if isinstance(a, Variant) and isinstance(b, Variant):
        out.append((label + ".tag", list(hyps), simp(a.tag == b.tag)))
        for i, (x, y) in enumerate(zip(a.alts, b.alts)):
            if x is None and y is None:
                continue
            h = list(hyps) + [a.tag == i]
            if x is None or y is None:
                out.append((label + " alternative %d" % i, h, FALSE))
            else:
                vals_equal(x, y, out, label + ".%d" % i, h)
        return
    if V.same(a, b):
        out.append((label, list(hyps), TRUE))
        return
    if isinstance(a, FuncV) and isinstance(b, FuncV) and a.name == b.name and \
            len(a.args) == len(b.args):
        for x, y in zip(a.args, b.args):
            vals_equal(x, y, out, label + ".fn", hyps)
        return
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.key == b.key and \
            len(a.args) == len(b.args):
        for x, y in zip(a.args, b.args):
            vals_equal(x, y, out, label + "." + str(a.key), hyps)
        return
    if type(a) is not type(b) or isinstance(a, (Opaque, FuncV, Closure)):
        out.append((label + " (%s vs %s)" % (type(a).__name__, type(b).__name__), list(hyps), FALSE))
        return
    raise Unsupported("cannot compare %s at %s" % (type(a).__name__, label))


def fold_match(pa, pb):
    """pa = [Flat(k)] + tail(k)  and  pb = [Flat(k+1)]  (or Sym / One)"""
    if len(pb) != 1 or not pa:
        return False
    q, p = pb[0], pa[0]
    if isinstance(q, Sym) and isinstance(p, Sym) and len(pa) == 2 and isinstance(pa[1], One):
        if not simp(q.n).eq(simp(p.n + 1)):
            return False
        J = p.J
        qe = V.subst(q.elem, [(q.J, J)])
        return V.same(p.elem, qe) and V.same(pa[1].v, V.subst(p.elem, [(J, p.n)]))
    if isinstance(q, Flat) and isinstance(p, Flat):
        if not simp(q.k).eq(simp(p.k + 1)):
            return False
        qi = V.subst(q.inner, [(q.J, p.J)])
        return V.same(p.inner, qi) and V.same(Vec(qi.ety, pa[1:]), V.subst(p.inner, [(p.J, p.k)]))
    return False


def items_equal(a, b, out, label, hyps):
    for l in (a, b):
        l[:] = [i for i in l if not (i[0] == "all" and V.is_int_const(simp(i[2]), 0))]
    while a and b and V.same_item(a[0], b[0]):
        a.pop(0)
        b.pop(0)
    # [all(k)] + tail(k)   vs   [all(k+1)]
    for x, y in ((a, b), (b, a)):
        if len(y) == 1 and x and y[0][0] == "all" and x[0][0] == "all" and \
                simp(y[0][2]).eq(simp(x[0][2] + 1)):
            J, k, its = x[0][1], x[0][2], x[0][3]
            yi = [V.subst_item(i, [(y[0][1], J)]) for i in y[0][3]]
            exp = [V.subst_item(i, [(J, k)]) for i in its]
            o2 = []
            items_equal_list(list(its), yi, o2, label, hyps)
            items_equal_list(list(x[1:]), exp, o2, label, hyps)
            out.extend(o2)
            if not o2:
                out.append((label, list(hyps), TRUE))
            return
    items_equal_list(a, b, out, label, hyps)
    if not out or not a:
        out.append((label, list(hyps), TRUE))


def items_equal_list(a, b, out, label, hyps):
    if len(a) != len(b):
        raise Unsupported("different constraint/effect lists at " + label)
    for x, y in zip(a, b):
        if V.same_item(x, y):
            continue
        if x[0] != y[0]:
            raise Unsupported("different effects at " + label)
        if x[0] == "c":
            if x[2] != y[2]:
                raise Unsupported("different constraint kinds at " + label)
            out.append((label + " guard", list(hyps), simp(x[1] == y[1])))
            out.append((label + " residual", list(hyps) + [x[1]], simp(x[3] == y[3])))
        elif x[0] == "ev":
            if x[2] != y[2]:
                raise Unsupported("different events at " + label)
            out.append((label + " guard", list(hyps), simp(x[1] == y[1])))
            for p, q in zip(x[3], y[3]):
                vals_equal(p, q, out, label + "." + str(x[2]), list(hyps) + [x[1]])
        else:
            out.append((label + " count", list(hyps), simp(x[2] == y[2])))
            J = x[1]
            yi = [V.subst_item(i, [(y[1], J)]) for i in y[3]]
            items_equal_list(list(x[3]), yi, out, label, list(hyps) + [J >= 0, J < x[2]])


# --------------------------------------------------------------------- run

def put_values(ex, st, locs, vals):
    for k in sorted(locs, key=lambda k: len(locs[k][1])):
        ex.store(st, Ref(locs[k][0], locs[k][1]), vals[k])


def run(ex, st, fc, fb, fi):
    # literal conditions: unroll
    outs = []
    st0, nobs, nloop = st.copy(), len(ex.obs), ex.loop_count
    for _ in range(16):
        before, mark = st.copy(), len(ex.obs)
        ex.cur = st
        c = simp(fc(st))
        if z3.is_false(c) or (not outs and ex.decide_in(st, simp(Not(c))) is True):
            return outs + [(st, "normal", None)]
        if not z3.is_true(c):
            break
        loops0 = st.loops
        st.loops = loops0 + (lit(-1 - _),)
        r = fb(st)
        norm = []
        for s, fl, v in r:
            s.loops = loops0
            if fl in ("normal", "continue"):
                norm.append((s, None))
            elif fl == "break":
                outs.append((s, "normal", None))
            else:
                outs.append((s, fl, v))
        if not norm:
            return outs
        st = norm[0][0] if len(norm) == 1 else ex.join_list(norm)[0]
        ex.cur = st
        st.loops = loops0
        fi(st)
    if outs or z3.is_true(c):
        # no end in sight: a loop that is left from its body
        before, mark = st0, nobs
        ex.loop_count = nloop
    del ex.obs[mark:]
    ex.cur = before
    return general(ex, before, fc, fb, fi)


def general(ex, st, fc, fb, fi):
    count, env = ex.loop_count, dict(st.env)
    try:
        return summarise(ex, st, fc, fb, fi, False)
    except Unsupported as e:
        if not str(e).startswith("no closed form") or not ex.stable:
            raise
        ex.loop_count, st.env, ex.cur = count, env, st
    # once more, for lists that keep their size
    return summarise(ex, st, fc, fb, fi, True)


def summarise(ex, st, fc, fb, fi, stable):
    ex.loop_count += 1
    label = "loop%d" % ex.loop_count
    pre = st
    grows = set()
    K = fresh_int("k")
    locs = {}
    posts = priors = None
    once = has_exits = False
    ecK = []
    ex.muted += 1
    ex.optimistic += 1
    try:
        for attempt in range(12 if stable else 8):
            s = pre.copy()
            s.assume(K >= 0)
            priors = {}
            inits = {}
            for k, loc in locs.items():
                inits[k] = ex.load(pre, Ref(*loc))
                priors[k] = prior_of(ex, inits[k], V.uid("pr"))
                if stable and k not in grows and isinstance(priors[k], Vec):
                    s.assume(priors[k].size() == inits[k].size())
            put_values(ex, s, locs, priors)
            start = dict(s.cells)
            vary = {K.decl().name()}
            for p in priors.values():
                vary |= prior_names(p)
            post, exits = one_iteration(ex, s, fc, fb, fi, K)
            has_exits = any(e[1] != "dead" for e in exits)
            if post is None:
                once = True
                break
            added = False
            for cname, v in post.cells.items():
                if cname not in start:
                    if cname.startswith(LAZY):
                        pre.cells[cname] = initial_cell(ex, post, cname)
                        added = True
                    continue
                w = start[cname]
                if v is w:
                    continue
                found = {}
                diff(w, v, (cname, ()), vary, found)
                for k, loc in found.items():
                    if k not in locs:
                        locs[k] = loc
                        added = True
            if stable:
                for k, p in priors.items():
                    if isinstance(p, Vec) and k not in grows:
                        q = ex.load(post, Ref(*locs[k]))
                        if not isinstance(q, Vec) or not P.check(list(post.pc), q.size() == p.size(), 2).ok:
                            grows.add(k)
                            added = True
            # drop locations below another modified location
            for k in list(locs):
                if any(k2 != k and k[:len(k2)] == k2 for k2 in locs):
                    del locs[k]
                    added = True
            if not added:
                break
        else:
            raise Unsupported("modified locations do not settle")
        if not once:
            posts = {k: ex.load(post, Ref(*loc)) for k, loc in locs.items()}
            ex.cur = pre
            kst = pre.copy()
            kst.assume(K >= 0)
            ex.cur = kst
            closed = solve(ex, priors, posts, inits, locs, K)
            # condition at the start of iteration K
            s = pre.copy()
            s.assume(K >= 0)
            put_values(ex, s, locs, closed)
            ex.cur = s
            cK = simp(fc(s))
            if has_exits:
                s.loops = s.loops + (K,)
                s.assume(cK)
                n0 = len(s.pc)
                ecK = [simp(And(*o.pc[n0:])) if len(o.pc) > n0 else TRUE
                       for o, fl, _ in fb(s) if fl in ("break", "return", "throw")]
    finally:
        ex.muted -= 1
        ex.optimistic -= 1
    if once:
        return last_iteration(ex, pre, fc, fb, None, label)
    cands = []
    raw = trip_candidates(cK, K)
    whole, first = cK, list(raw)
    if ecK:
        for e in ecK:
            for q in conjuncts(e):
                raw.extend(trip_candidates(negate(q), K))
        alone = list(raw)
        if len(alone) >= 2:
            for e in alone[len(first):]:
                for t in first or alone[:1]:
                    raw.append(simp(ite(t < e, t, e)))
            m = alone[0]
            for t in alone[1:]:
                m = ite(t < m, t, m)
            raw.append(simp(m))
        cK = simp(And(cK, *[Not(e) for e in ecK]))
    for t in raw:
        if not any(t.eq(x) for x in cands):
            cands.append(t)
    if not cands:
        raise Unsupported("trip count of the loop: " + str(cK)[:120])
    Tn = None
    for t in cands:
        cand = t
        if ex.decide_in(pre, simp(t >= 0)) is not True:
            cand = ite(t > 0, t, ZERO)
        if not ecK and (len(cands) == 1 and not z3.is_and(cK) or ex.optimistic):
            Tn = cand
            break
        hy = list(pre.pc) + [K >= 0, K < cand]
        if P.check(hy, cK, 3).ok and \
                P.check(list(pre.pc), Not(V.tsub(cK, [(K, cand)])), 3).ok:
            Tn = cand
            break
    facts = []
    if Tn is None:
        Tn = first_hit(ex, pre, whole, ecK, first, K, facts)
    if Tn is None and len(cands) == 1:
        Tn = cands[0]
        if ex.decide_in(pre, simp(Tn >= 0)) is not True:
            Tn = ite(Tn > 0, Tn, ZERO)
    if Tn is None:
        raise Unsupported("trip count of the loop")
    Tn = simp(Tn)
    if not ex.muted:
        verify(ex, pre, fc, fb, fi, K, locs, inits, closed, Tn, label, bool(ecK), facts)
    # state after the loop
    fin = pre.copy()
    ex.cur = fin
    fvals = {k: at_trip(V.subst(c, [(K, Tn)])) for k, c in closed.items()}
    put_values(ex, fin, locs, fvals)
    fin.assume(Tn >= 0)
    ex.cur = fin
    if ecK:
        return last_iteration(ex, fin, fc, fb, Tn, label)
    fin.assume(Not(simp(fc(fin))))    # its side effects happen once more
    return [(fin, "normal", None)]


def first_hit(ex, pre, cond, ecK, first, K, facts):
    """a loop that goes round at most t0 times and is left as soon as something
    holds: the least iteration in which it does, as a running minimum"""
    if ecK:
        splits = [(t, cond, z3.Or(*ecK)) for t in first]
    else:
        cs = conjuncts(cond)
        splits = [(t, x, z3.Or(*[Not(y) for y in cs if y is not x]))
                  for x in cs if len(cs) > 1 for t in trip_candidates(x, K)]
    for t, c, hit in splits:
        if ex.decide_in(pre, simp(t >= 0)) is not True:
            t = ite(t > 0, t, ZERO)
        t = simp(t)
        if not P.check(list(pre.pc) + [K >= 0, K < t], c, 3).ok or \
                not P.check(list(pre.pc), Not(V.tsub(c, [(K, t)])), 3).ok:
            continue
        hit = simp(hit)
        p = fresh_real("first")
        k = z3.ToReal(K)
        r = recurse(["t"], {"t": p}, {"t": z3.If(hit, z3.If(k < p, k, p), p)}, {"t": z3.ToReal(t)}, K)["t"]
        if P.fold_kind(V.REG.by_name[r.decl().name()]) != "min":
            continue
        facts.append(Not(hit))
        return z3.ToInt(z3.substitute(r, (K, t)))
    return None


def conjuncts(e):
    if z3.is_and(e):
        return [y for x in e.children() for y in conjuncts(x)]
    return [e]


def negate(q):
    if z3.is_not(q):
        return q.arg(0)
    for test, op in ((z3.is_le, lambda a, b: a > b), (z3.is_lt, lambda a, b: a >= b),
                     (z3.is_ge, lambda a, b: a < b), (z3.is_gt, lambda a, b: a <= b)):
        if test(q):
            return op(q.arg(0), q.arg(1))
    return Not(q)


def last_iteration(ex, st, fc, fb, Tn, label):
    """the iteration in which the loop is left: by its condition, by a break or
    by a return.  Going round again would contradict the trip count."""
    loops0 = st.loops
    outs = []
    c = simp(fc(st))
    d = ex.decide_in(st, c)
    if d is not True:
        out = st.copy()
        out.assume(Not(c))
        outs.append((out, "normal", None))
    if d is not False:
        s = st.copy()
        s.assume(c)
        s.loops = loops0 + (Tn if Tn is not None else ZERO,)
        ex.cur = s
        for o, fl, v in fb(s):
            o.loops = loops0
            if fl in ("normal", "continue"):
                ex.ob(o, label + ": the loop is left after its last iteration", FALSE, assume=False)
            elif fl == "break":
                outs.append((o, "normal", None))
            else:
                outs.append((o, fl, v))
    ex.cur = st
    return outs


def at_trip(v):
    return v


def verify(ex, pre, fc, fb, fi, K, locs, inits, closed, Tn, label, exits=False, facts=()):
    v = pre.copy()
    v.assume(K >= 0)
    v.assume(K < Tn)
    for f in facts:      # Tn is the least number at which one of them fails
        v.assume(f)
    ex.cur = v
    put_values(ex, v, locs, closed)
    # base case
    goals = []
    ex.cur = pre
    for k in locs:
        vals_equal(V.subst(closed[k], [(K, ZERO)]), inits[k], goals, "%s: initially %s" % (label, show_loc(k)))
    for l, h, g in goals:
        base = pre.copy()
        base.pc.extend(h)
        ex.ob(base, l, g, assume=False)
    ex.cur = v
    loops0 = v.loops
    v.loops = loops0 + (K,)
    c = fc(v)
    ex.ob(v, label + ": condition holds before the last iteration", c)
    snap = dict(v.cells)
    outs = fb(v)
    norm = []
    for s, fl, val in outs:
        if fl in ("normal", "continue"):
            norm.append((s, None))
        elif fl == "dead":
            for pc, _ in val or []:
                nothrow(ex, v, pc, label)
        elif exits:
            ex.ob(s, label + ": not left before its last iteration", FALSE, assume=False)
        else:
            raise Unsupported("early exit")
    if not norm:
        raise Unsupported("loop body never completes")
    s = norm[0][0] if len(norm) == 1 else ex.join_list(norm)[0]
    ex.cur = s
    fi(s)
    for pc, what in s.throws:
        if not any(pc is q for q, _ in v.throws):
            nothrow(ex, v, pc, label)
    s.loops = loops0
    goals = []
    for k, loc in locs.items():
        got = ex.load(s, Ref(*loc))
        want = V.subst(closed[k], [(K, simp(K + 1))])
        vals_equal(got, want, goals, "%s: preserves %s" % (label, show_loc(k)))
    for l, h, g in goals:
        b = s.copy()
        b.pc.extend(h)
        ex.ob(b, l, g, assume=False)
    # nothing else changed
    keys = set(locs)
    for cname, val in s.cells.items():
        if cname in snap and snap[cname] is not val:
            found = {}
            diff(snap[cname], val, (cname, ()), {K.decl().name()} , found)
            for fk, loc in found.items():
                if not any(fk[:len(k)] == k for k in keys):
                    if any(k[:len(fk)] == fk for k in keys):
                        continue
                    raise Unsupported("frame of the loop: " + str(fk))
    # exit
    if exits:
        return      # last_iteration() shows that the loop is left
    f = pre.copy()
    ex.cur = f
    put_values(ex, f, locs, {k: V.subst(c_, [(K, Tn)]) for k, c_ in closed.items()})
    cT = fc(f)
    ex.ob(f, label + ": terminates at the trip count", Not(cT), assume=False)


def nothrow(ex, v, pc, label):
    b = v.copy()
    b.pc = list(pc)
    ex.ob(b, label + ": no exception leaves the loop", FALSE, assume=False)


def show_loc(k):
    return ".".join(x.split("#")[0] for x in k)


def untouched_values(cname, v):
    """the values of the variables of one site before any is set"""
    import lib
    d = 0
    x = v
    while isinstance(x, Vec):
        d += 1
        p = x.pieces[0]
        while isinstance(p, (UpdP, PointP, IteP)):
            p = p.base.pieces[0] if not isinstance(p, IteP) else (p.a.pieces[0] if isinstance(p.a, Vec) else p.a)
        x = p.elem
    return lib.val_map(cname[4:], d)


def initial_cell(ex, post, cname):
    if cname.startswith("val:"):
        return untouched_values(cname, post.cells[cname])
    if cname == "$trace":
        return Trace("trace")
    return ex.lazy0.get(cname, post.cells[cname])


import lib as _lib
LIBUNB = _lib.UNBOUNDED
