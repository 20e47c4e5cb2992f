"""Models of the standard library and of Sleipnir (trusted, assumed)."""
import re

import z3

import types_ as T
import values as V
import prove as P
from values import *

OPAQUE_RECORDS = {"expected", "unexpected", "expected_storage_base", "in_place_t",
                  "unexpect_t", "bad_expected_access", "optional", "nullopt_t"}


def opaque_record(name):
    return name is not None and (name in OPAQUE_RECORDS or name.startswith("expected_"))


def ex_args(ex, st, argn):
    return [ex.eval(st, a) for a in argn if a["kind"] != "CXXDefaultArgExpr"]


def real(v):
    if isinstance(v, SVar):
        v = v.den
    if not isinstance(v, z3.ExprRef):
        raise Unsupported("numeric argument expected, got %s" % type(v).__name__)
    if v.sort() == I:
        return z3.ToReal(v)
    if v.sort() == B:
        return ite(v, z3.RealVal(1), z3.RealVal(0))
    return v


def num_fn(fn):
    def h(ex, st, vals, ty):
        sv = any(isinstance(v, SVar) for v in vals)
        r = simp(fn(*[real(v) for v in vals]))
        return SVar(r) if sv else r
    return h


def trunc_real(x):
    return z3.If(x >= 0, z3.ToReal(z3.ToInt(x)), -z3.ToReal(z3.ToInt(-x)))


def z_abs(x):
    return z3.If(x >= 0, x, -x)


def z_round(x):
    return z3.If(x >= 0, z3.ToReal(z3.ToInt(x + z3.Q(1, 2))),
                 -z3.ToReal(z3.ToInt(-x + z3.Q(1, 2))))


def z_pow(x, y):
    y = simp(z3.ToReal(y) if y.sort() == I else y)
    if z3.is_rational_value(y) and y.denominator_as_long() == 1:
        n = y.numerator_as_long()
        if 0 <= n <= 4:
            r = z3.RealVal(1)
            for _ in range(n):
                r = r * x
            return r
    return P.POW(x, y)


def z_remainder(x, y):
    q = z3.ToInt(x / y + z3.Q(1, 2))
    # ties to even are not distinguished: the tie itself may go either way
    return x - z3.ToReal(q) * y


NUM = {
    "cos": num_fn(lambda x: P.COS(x)), "sin": num_fn(lambda x: P.SIN(x)),
    "tan": num_fn(lambda x: P.TAN(x)), "atan": num_fn(lambda x: P.ATAN(x)),
    "acos": num_fn(lambda x: P.ACOS(x)), "asin": num_fn(lambda x: P.ASIN(x)),
    "exp": num_fn(lambda x: P.EXP(x)), "log": num_fn(lambda x: P.LOG_(x)),
    "sqrt": num_fn(lambda x: P.SQRT(x)),
    "atan2": num_fn(lambda y, x: P.ATAN2(y, x)),
    "hypot": num_fn(lambda x, y, *z: P.SQRT(x * x + y * y + z[0] * z[0]) if z else P.HYPOT(x, y)),
    "fabs": num_fn(z_abs), "trunc": num_fn(trunc_real),
    "floor": num_fn(lambda x: z3.ToReal(z3.ToInt(x))),
    "ceil": num_fn(lambda x: -z3.ToReal(z3.ToInt(-x))),
    "round": num_fn(z_round),
    "fmod": num_fn(lambda x, y: x - y * trunc_real(x / y)),
    "remainder": num_fn(z_remainder),
    "fma": num_fn(lambda x, y, z: x * y + z),
    "fmin": num_fn(lambda x, y: z3.If(y < x, y, x)),
    "fmax": num_fn(lambda x, y: z3.If(x < y, y, x)),
    "pow": num_fn(z_pow),
    "lerp": num_fn(lambda a, b, t: a + t * (b - a)),
    "midpoint": num_fn(lambda a, b: (a + b) / 2),
    "copysign": num_fn(lambda a, b: z3.If(b >= 0, z_abs(a), -z_abs(a))),
    "sign": num_fn(lambda x: z3.If(x > 0, z3.RealVal(1), z3.If(x < 0, z3.RealVal(-1), z3.RealVal(0)))),
}


def moved(v):
    if isinstance(v, Vec):
        return Vec(v.ety)
    if isinstance(v, Struct):
        return Struct(v.ty, {k: moved(x) for k, x in v.f.items()})
    return v


def is_move_expr(n):
    return n.get("valueCategory") == "xvalue"


def take(ex, st, node_or_ref, node=None):
    """value of an argument; a source that is moved from is emptied"""
    r = node_or_ref
    v = ex.rv(st, r)
    if node is not None and isinstance(r, Ref) and is_move_expr(node):
        if _has_vec(v) and not r.cell.startswith("tmp"):
            ex.store(st, r, moved(v))
    return v


def _has_vec(v):
    if isinstance(v, Vec):
        return True
    if isinstance(v, Struct):
        return any(_has_vec(x) for x in v.f.values())
    return False


# ------------------------------------------------------------------ free calls

def free_call(ex, st, name, n, argn):
    ty = ex.prog.ty(n)
    if name in ("move", "forward", "as_const", "ref", "cref", "to_address", "addressof",
                "move_if_noexcept", "static_pointer_cast", "data"):
        if name == "move" and len(argn) == 3:
            return algo(ex, st, "copy", n, argn)
        return ex.eval(st, argn[0])
    if name in ("__assert_fail", "abort", "terminate", "exit", "__builtin_abort",
                "__throw_out_of_range_fmt", "unreachable", "__builtin_unreachable"):
        ex.ob(st, "assertion holds", FALSE, assume=False)
        from exec import Dead
        raise Dead([])
    if name in ("__builtin_inff", "__builtin_inf", "__builtin_huge_val", "__builtin_huge_valf", "infinity"):
        return P.INF
    if name == "max" and not argn and T.is_float(ty):
        return P.INF
    if name == "max" and not argn and T.is_int(ty):
        return lit(T.INTS[ty.name][1])
    if name in ("min", "lowest") and not argn and T.is_int(ty):
        return lit(T.INTS[ty.name][0])
    if name in ("__builtin_expect",):
        return ex.val(st, argn[0])
    if name == "isnan":
        ex.val(st, argn[0])
        return FALSE
    if name in ("isfinite",):
        v = real(ex.val(st, argn[0]))
        return simp(And(v < P.INF, v > -P.INF))
    if name in ("isinf",):
        v = real(ex.val(st, argn[0]))
        return simp(Or(v >= P.INF, v <= -P.INF))
    if name in NUM:
        vals = [ex.val(st, a) for a in argn]
        r = NUM[name](ex, st, vals, ty)
        if ty.name == "Variable" and not isinstance(r, SVar):
            r = SVar(r)
        return r
    if name == "abs":
        v = ex.val(st, argn[0])
        if isinstance(v, z3.ExprRef) and v.sort() == I:
            return simp(ite(v >= 0, v, -v))
        r = simp(z_abs(real(v)))
        return SVar(r) if isinstance(v, SVar) else r
    if name in ("min", "max") and len(argn) == 2:
        a, b = ex.eval(st, argn[0]), ex.eval(st, argn[1])
        va, vb = ex.rv(st, a), ex.rv(st, b)
        if isinstance(va, z3.ExprRef) and isinstance(vb, z3.ExprRef):
            if va.sort() != vb.sort():
                va, vb = real(va), real(vb)
            c = (vb < va) if name == "min" else (va < vb)
            return ex.new_cell(st, simp(ite(c, vb, va)), "tmp")
        raise Unsupported(name + " of these arguments")
    if name in ("min", "max") and len(argn) == 1:
        v = ex.val(st, argn[0])
        if isinstance(v, Vec) and all(isinstance(p, One) for p in v.pieces):
            acc = v.pieces[0].v
            for p in v.pieces[1:]:
                c = (p.v < acc) if name == "min" else (acc < p.v)
                acc = ite(c, p.v, acc)
            return simp(acc)
        raise Unsupported(name + " of list")
    if name == "clamp":
        v, lo, hi = [ex.val(st, a) for a in argn]
        return ex.new_cell(st, simp(ite(v < lo, lo, ite(hi < v, hi, v))), "tmp")
    if name == "swap":
        a, b = ex.eval(st, argn[0]), ex.eval(st, argn[1])
        va, vb = ex.load(st, a), ex.load(st, b)
        ex.store(st, a, vb)
        ex.store(st, b, va)
        return UNIT
    if name == "exchange":
        a = ex.eval(st, argn[0])
        old = ex.load(st, a)
        v = ex.val(st, argn[1])
        ex.store(st, a, ex.convert(st, v, ex.prog.ty(argn[1]), ex.prog.ty(argn[0])))
        return old
    if name in ("begin", "cbegin", "end", "cend", "size", "ssize", "empty"):
        b = ex.eval(st, argn[0])
        return vec_method(ex, st, name, b, ex.prog.ty(argn[0]), [], n)
    if name == "get" and len(argn) == 1:
        return std_get(ex, st, n, argn)
    if name == "holds_alternative":
        v = ex.val(st, argn[0])
        fr = n["inner"][0]
        while fr["kind"] == "ImplicitCastExpr":
            fr = fr["inner"][0]
        t = ex.prog.text_of(fr) or ""
        m = re.search(r"^(?:[\w:]*::)?holds_alternative\s*<\s*([\w:<>, ]+?)\s*>$", t.strip())
        if isinstance(v, Variant) and m:
            want = m.group(1).split("::")[-1]
            idx = [i for i, a in enumerate(v.types) if a.canon().split("::")[-1] == want]
            if len(idx) == 1:
                return simp(v.tag == idx[0])
        raise Unsupported("holds_alternative")
    if name == "back_inserter":
        return BackInserter(ex.eval(st, argn[0]))
    if name in ("next", "prev", "advance"):
        it = ex.val(st, argn[0])
        d = ex.val(st, argn[1]) if len(argn) > 1 and argn[1]["kind"] != "CXXDefaultArgExpr" else ONE
        nv = Iter(it.ref, simp(it.idx + (d if name != "prev" else -d)))
        if name == "advance":
            ex.store(st, ex.eval(st, argn[0]), nv)
            return UNIT
        return nv
    if name == "distance":
        a, b = ex.val(st, argn[0]), ex.val(st, argn[1])
        return simp(b.idx - a.idx)
    if name == "invoke":
        fs = [ex.eval(st, a) for a in argn]
        return ex.invoke(st, fs[0], fs[1:])
    if name == "visit":
        return visit(ex, st, argn, n)
    if name == "now":
        return now(ex, st)
    if name == "ToMessage":
        return Opaque("ToMessage", (ex.val(st, argn[0]),))
    if name in ("make_unique", "make_shared"):
        t = ty.args[0]
        v = ex.construct(st, t, [(ex.eval(st, a), ex.prog.ty(a)) for a in argn])
        return ex.new_cell(st, v, "heap")
    if name in ("make_pair",):
        a, b = [ex.val(st, x) for x in argn]
        return Struct(ty.canon(), {"first": a, "second": b})
    if name == "make_optional" and len(argn) == 1:
        return to_optional(ex, st, ex.val(st, argn[0]), ex.prog.ty(argn[0]), ty.args[0])
    if name == "make_tuple" and len(argn) == len(ty.args) and not any(a.ref for a in ty.args):
        return Struct(ty.canon(), {"$t%d" % i: ex.convert(st, ex.val(st, a), ex.prog.ty(a), ty.args[i])
                                   for i, a in enumerate(argn)})
    if name in ("tie", "forward_as_tuple"):
        f = {}
        for i, a in enumerate(argn):
            r = ex.eval(st, a)
            if not isinstance(r, Ref):
                raise Unsupported("tie of a temporary")
            f["$t%d" % i] = r
        return Struct(ty.canon(), f)
    if name == "apply" and len(argn) == 2:
        fn = ex.eval(st, argn[0])
        r = ex.eval(st, argn[1])
        v = ex.rv(st, r)
        if isinstance(v, Struct) and tuple_fields(v):
            if not isinstance(r, Ref):
                r = ex.new_cell(st, v, "tmp")
            return ex.invoke(st, fn, [v.f[k] if isinstance(v.f[k], Ref) else r.field(k) for k in tuple_fields(v)])
    if name in ALGOS:
        return algo(ex, st, name, n, argn)
    if name in ("print", "println", "printf", "fprintf", "puts", "fflush", "__builtin_printf"):
        for a in argn:
            ex.eval(st, a)
        return UNIT
    if name == "terminate":
        raise Unsupported(name)
    raise Unsupported("call of " + name)


def std_get(ex, st, n, argn):
    r = ex.eval(st, argn[0])
    v = ex.rv(st, r)
    fr = n["inner"][0]
    while fr["kind"] == "ImplicitCastExpr":
        fr = fr["inner"][0]
    if isinstance(v, Variant):
        ty = ex.prog.ty(n)
        for i, a in enumerate(v.types):
            if a.canon() == ty.canon():
                ex.ob(st, "variant holds the alternative", v.tag == i)
                return r.field("$alt%d" % i)
    if isinstance(v, Struct) and tuple_fields(v):
        m = re.search(r"get\s*<\s*(\d+)\s*>\s*$", (ex.prog.text_of(fr) or "").strip())
        if m and int(m.group(1)) < len(tuple_fields(v)):
            f = tuple_fields(v)[int(m.group(1))]
            if isinstance(v.f[f], Ref):
                return v.f[f]
            return r.field(f) if isinstance(r, Ref) else v.f[f]
    raise Unsupported("std::get")


def tuple_fields(v):
    """the fields of a pair or tuple in order"""
    if set(v.f) == {"first", "second"}:
        return ["first", "second"]
    if v.f and all(k.startswith("$t") for k in v.f):
        return ["$t%d" % i for i in range(len(v.f))]
    return None


def visit(ex, st, argn, n):
    fn = ex.eval(st, argn[0])
    vr = ex.eval(st, argn[1])
    v = ex.rv(st, vr)
    if not isinstance(v, Variant):
        raise Unsupported("visit of %s" % type(v).__name__)
    if not isinstance(vr, Ref):
        vr = ex.new_cell(st, v, "tmp")
    idx = [i for i, a in enumerate(v.alts) if a is not None]

    tag = simp(v.tag)

    def run(s, i):
        return ex.invoke(s, fn, [vr.field("$alt%d" % i)])
    if z3.is_int_value(tag):
        r = run(st, tag.as_long())
        return UNIT if r is None else r
    base = list(st.pc)
    acc = None
    for i in reversed(idx):
        c = simp(tag == i)
        s = st.copy()
        s.pc.append(c)
        ex.cur = s
        try:
            r = (s, run(s, i))
        except Dead as e:
            raise Unsupported("a visitor never returns")
        if acc is None:
            acc = r
            acc[0].pc = [x for x in acc[0].pc if not x.eq(c)]
        else:
            acc = ex.merge_states(c, r, acc, base)
    st.take(acc[0])
    ex.cur = st
    return UNIT if acc[1] is None else acc[1]


# ------------------------------------------------------------------ algorithms

def algo_loop(ex, st, n_iter, step):
    """for (k = 0; k < n_iter; ++k) step(state, k)"""
    import loops
    kr = ex.new_cell(st, ZERO, "algo_k")

    def fc(s):
        return simp(s.cells[kr.cell] < n_iter)

    def fb(s):
        r = step(s, s.cells[kr.cell])
        return [(s, "normal", None)]

    def fi(s):
        s.cells[kr.cell] = simp(s.cells[kr.cell] + 1)
    outs = loops.run(ex, st, fc, fb, fi)
    o, _ = ex.join([(s, "return", UNIT) if f == "normal" else (s, f, v) for s, f, v in outs])
    st.take(o)


ALGOS = ("accumulate", "transform", "copy", "for_each", "fill", "copy_n", "fill_n",
         "reduce", "generate", "iota", "transform_reduce", "partial_sum", "inner_product", "generate_n",
         "all_of", "any_of", "none_of", "count_if", "count", "adjacent_difference",
         "find", "find_if", "find_if_not", "reverse")


def rng(ex, st, argn):
    """first,last -> (ref, lo, hi, rest) ; a range argument -> same"""
    a = ex.eval(st, argn[0])
    v = ex.rv(st, a)
    if isinstance(v, Iter):
        b = ex.val(st, argn[1])
        return v.ref, v.idx, b.idx, argn[2:]
    if isinstance(v, Vec):
        if not isinstance(a, Ref):
            a = ex.new_cell(st, v, "tmp")
        return a, ZERO, v.size(), argn[1:]
    raise Unsupported("range argument")


def put(ex, st, out, k, v):
    """write v through an output iterator that has advanced k steps"""
    if isinstance(out, BackInserter):
        vec = ex.load(st, out.ref)
        ex.store(st, out.ref, vec.append(v))
    elif isinstance(out, Iter):
        vec = ex.load(st, out.ref)
        i = simp(out.idx + k)
        ex.ob(st, "output iterator in bounds", And(i >= 0, i < vec.size()))
        ex.store(st, out.ref.index(i), v)
    else:
        raise Unsupported("output iterator")


def reverse(v):
    """the sequence back to front, piece by piece"""
    if isinstance(v, Vec):
        return Vec(v.ety, tuple(reverse(p) for p in reversed(v.pieces)))
    if isinstance(v, One):
        return v
    J = fresh_int("j")
    if isinstance(v, Flat):
        return Flat(v.k, J, reverse(V.subst(v.inner, [(v.J, simp(v.k - 1 - J))])))
    if isinstance(v, IteP):
        return IteP(v.c, reverse(v.a), reverse(v.b))
    k = v.size()
    return Sym(k, J, v.at(simp(k - 1 - J)))


def algo(ex, st, name, n, argn):
    if name in ("fill", "generate", "iota"):
        ref, lo, hi, rest = rng(ex, st, argn)
        cnt = simp(hi - lo)
        if name == "fill":
            v = ex.val(st, rest[0])

            def step(s, k):
                ex.store(s, ref.index(simp(lo + k)), v)
        elif name == "generate":
            op = ex.eval(st, rest[0])

            def step(s, k):
                ex.store(s, ref.index(simp(lo + k)), ex.rv(s, ex.invoke(s, op, [])))
        elif name == "iota":
            ty0 = ex.prog.ty(rest[0])
            v = ex.convert(st, ex.val(st, rest[0]), ty0, ex.load(st, ref).ety)
            if v.sort() != I:
                raise Unsupported("iota of " + str(ty0))

            def step(s, k):
                ex.store(s, ref.index(simp(lo + k)), simp(v + k))
        else:
            raise Unsupported(name)
        algo_loop(ex, st, cnt, step)
        return UNIT
    if name == "generate_n":
        out = ex.val(st, argn[0])
        op = ex.eval(st, argn[2])
        algo_loop(ex, st, ex.val(st, argn[1]), lambda s, k: put(ex, s, out, k, ex.rv(s, ex.invoke(s, op, []))))
        return UNIT
    if name in ("copy_n", "fill_n"):
        a = ex.val(st, argn[0])
        cnt = ex.val(st, argn[1])
        if name == "copy_n":
            out = ex.val(st, argn[2])

            def step(s, k):
                put(ex, s, out, k, ex.load(s, a.ref.index(simp(a.idx + k))))
        else:
            v = ex.val(st, argn[2])

            def step(s, k):
                put(ex, s, a, k, v)
        algo_loop(ex, st, cnt, step)
        return UNIT
    ref, lo, hi, rest = rng(ex, st, argn)
    cnt = simp(hi - lo)

    def elem(s, k):
        i = simp(lo + k)
        return ref.index(i)
    if name in ("accumulate", "reduce"):
        ity = ex.prog.ty(n)
        init = ex.convert(st, ex.val(st, rest[0]), ex.prog.ty(rest[0]), ity) if rest else ex.default(st, ity)
        acc = ex.new_cell(st, init, "acc")
        op = ex.eval(st, rest[1]) if len(rest) > 1 else None

        def step(s, k):
            a = ex.load(s, acc)
            e = elem(s, k)
            if op is None:
                v = ex.arith(s, "+", a, ex.load(s, e), ity)
            elif isinstance(ex.rv(s, op), Opaque):
                key = ex.rv(s, op).key
                o = {"plus": "+", "multiplies": "*", "minus": "-"}.get(key)
                if o is None:
                    raise Unsupported("functor " + str(key))
                v = ex.arith(s, o, a, ex.load(s, e), ity)
            else:
                v = ex.rv(s, ex.invoke(s, op, [acc, e]))
            ex.store(s, acc, ex.convert(s, v, ity, ity))
        algo_loop(ex, st, cnt, step)
        return ex.load(st, acc)
    if name in ("all_of", "any_of", "none_of", "count_if", "count"):
        # counted over the whole range; the same as stopping at the first hit
        # when the predicate has no effect
        op = ex.eval(st, rest[0])
        before = {c: v for c, v in st.cells.items()}
        hits = ex.new_cell(st, ZERO, "hits")

        def step(s, k):
            if name == "count":
                x, y = ex.load(s, elem(s, k)), ex.rv(s, op)
                if not (isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef)):
                    raise Unsupported("count of these values")
                if x.sort() != y.sort():
                    x, y = real(x), real(y)
                c = x == y
            else:
                c = ex.as_bool(ex.rv(s, ex.invoke(s, op, [elem(s, k)])))
            if name == "all_of":
                c = Not(c)
            s.cells[hits.cell] = simp(s.cells[hits.cell] + ite(c, ONE, ZERO))
        algo_loop(ex, st, cnt, step)
        for c, v in before.items():
            if st.cells.get(c) is not v and not V.same(st.cells.get(c), v):
                raise Unsupported("a predicate with an effect")
        h = ex.load(st, hits)
        if name in ("count", "count_if"):
            return h
        return simp(h > 0) if name == "any_of" else simp(h == 0)
    if name in ("find", "find_if", "find_if_not"):
        # a loop that is left at the first hit
        import loops
        op = ex.eval(st, rest[0])
        kr = ex.new_cell(st, lo, "find_k")
        before = {c: v for c, v in st.cells.items() if c != kr.cell}

        def fc(s):
            return simp(s.cells[kr.cell] < hi)

        def fb(s):
            e = ref.index(s.cells[kr.cell])
            if name == "find":
                x, y = ex.load(s, e), ex.rv(s, op)
                if not (isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef)):
                    raise Unsupported("find of these values")
                if x.sort() != y.sort():
                    x, y = real(x), real(y)
                c = simp(x == y)
            else:
                c = ex.as_bool(ex.rv(s, ex.invoke(s, op, [e])))
                if name == "find_if_not":
                    c = Not(c)
            c = simp(c)
            if z3.is_true(c):
                return [(s, "break", None)]
            if z3.is_false(c):
                return [(s, "normal", None)]
            t = s.copy()
            t.pc.append(c)
            s.pc.append(simp(Not(c)))
            return [(t, "break", None), (s, "normal", None)]

        def fi(s):
            s.cells[kr.cell] = simp(s.cells[kr.cell] + 1)
        outs = loops.run(ex, st, fc, fb, fi)
        o, _ = ex.join([(s, "return", UNIT) if f == "normal" else (s, f, v) for s, f, v in outs])
        st.take(o)
        for c, v in before.items():
            if st.cells.get(c) is not v and not V.same(st.cells.get(c), v):
                raise Unsupported("a predicate with an effect")
        return Iter(ref, st.cells[kr.cell])
    if name == "reverse":
        v = ex.load(st, ref)
        if not is_int_const(simp(lo), 0) or not is_int_const(simp(hi - v.size()), 0):
            raise Unsupported("reverse of a part")
        ex.store(st, ref, reverse(v))
        return UNIT
    if name == "for_each":
        op = ex.eval(st, rest[0])

        def step(s, k):
            ex.invoke(s, op, [elem(s, k)])
        algo_loop(ex, st, cnt, step)
        return UNIT
    if name == "copy":
        out = ex.val(st, rest[0])
        if isinstance(out, BackInserter):
            src = ex.load(st, ref)
            dst = ex.load(st, out.ref)
            ex.ob(st, "copied range in bounds", And(lo >= 0, hi <= src.size(), lo <= hi))
            ex.store(st, out.ref, dst.concat(src.slice(lo, hi)))
            return out

        def step(s, k):
            put(ex, s, out, k, ex.load(s, elem(s, k)))
        algo_loop(ex, st, cnt, step)
        return out if not isinstance(out, Iter) else Iter(out.ref, simp(out.idx + cnt))
    if name == "adjacent_difference" and len(rest) == 1:
        out = ex.val(st, rest[0])
        ety = T.parse(ex.load(st, ref).ety)

        def step(s, k):
            a, b = ex.load(s, elem(s, k)), ex.load(s, elem(s, simp(ite(k > 0, k - 1, k))))
            d = ex.arith(s, "-", a, b, ety)
            put(ex, s, out, k, merge_v(k > 0, d, a))
        algo_loop(ex, st, cnt, step)
        return out if not isinstance(out, Iter) else Iter(out.ref, simp(out.idx + cnt))
    if name == "transform":
        out = ex.val(st, rest[0])
        op = None
        second = None
        if len(rest) == 3:
            second = out
            if not isinstance(second, Iter):
                raise Unsupported("second range of transform")
            out = ex.val(st, rest[1])
            op = ex.eval(st, rest[2])
        else:
            op = ex.eval(st, rest[1])

        def step(s, k):
            a = [elem(s, k)]
            if second is not None:
                a.append(second.ref.index(simp(second.idx + k)))
            put(ex, s, out, k, ex.rv(s, ex.invoke(s, op, a)))
        algo_loop(ex, st, cnt, step)
        return out if not isinstance(out, Iter) else Iter(out.ref, simp(out.idx + cnt))
    raise Unsupported("algorithm " + name)


# ---------------------------------------------------------------- constructors

def member_value(ex, st, v, t, a):
    """what a pair's or tuple's member of type a is set to"""
    w = ex.rv(st, v)
    if isinstance(v, Ref) and a.ptr and not a.ref and not isinstance(w, Ref):
        return v        # the pointer, not what it points to
    return ex.convert(st, w, t, a)


def text(w):
    """the text a pointer to its first character stands for"""
    while isinstance(w, Opaque) and w.key in ("m:c_str", "m:data", "m:view", "m:str") and len(w.args) == 1 and \
            isinstance(w.args[0], Opaque):
        w = w.args[0]
    return w


def construct(ex, st, ty, vals, sig):
    nm = ty.name
    vals = [(v, t) for v, t in vals if not (isinstance(v, Opaque) and v.key == "defaultarg")
            and not (t is not None and t.name == "allocator") and v is not None]
    if nm in ("vector", "Vec"):
        if not vals:
            return Vec(ty.args[0].canon())
        v0 = ex.rv(st, vals[0][0])
        if len(vals) == 1 and isinstance(v0, Vec):
            if "&&" in sig and isinstance(vals[0][0], Ref) and not vals[0][0].cell.startswith("tmp"):
                ex.store(st, vals[0][0], Vec(v0.ety))
            return convert_vec(ex, st, v0, vals[0][1], ty)
        if isinstance(v0, z3.ExprRef) and v0.sort() == I:
            if len(vals) == 1:
                e = ex.default(st, ty.args[0])
            else:
                e = ex.convert(st, ex.rv(st, vals[1][0]), vals[1][1], ty.args[0])
            return Vec(ty.args[0].canon(), (Sym(v0, fresh_int("j"), e),))
        if isinstance(v0, Iter) and len(vals) == 2:
            b = ex.rv(st, vals[1][0])
            return ex.load(st, v0.ref).slice(v0.idx, b.idx)
        raise Unsupported("vector constructor " + sig)
    if nm == "initializer_list":
        return ex.rv(st, vals[0][0]) if vals else Vec(ty.args[0].canon())
    if nm == "Variable":
        if not vals:
            return SVar(z3.RealVal(0))
        return ex.convert(st, ex.rv(st, vals[0][0]), vals[0][1], ty)
    if nm == "SolverConfig" and not vals:
        return ex.default(st, ty)
    if nm in ("EqualityConstraints", "InequalityConstraints"):
        v = ex.rv(st, vals[0][0])
        if isinstance(v, ConsV):
            return v
        if isinstance(v, Vec):
            items = []
            cons_items(v, TRUE, items)
            return ConsV("eq" if nm.startswith("Eq") else "ineq", items)
        raise Unsupported(nm + " constructor")
    if nm == "VariableMatrix":
        v = ex.rv(st, vals[0][0]) if vals else None
        if isinstance(v, Opaque) and v.key == "matrix":
            return v
        if isinstance(v, Vec):
            rows = []
            for p in v.pieces:
                if not isinstance(p, One):
                    raise Unsupported("VariableMatrix rows")
                r = p.v
                if isinstance(r, Vec):
                    row = []
                    for q in r.pieces:
                        if not isinstance(q, One):
                            raise Unsupported("VariableMatrix entries")
                        row.append(q.v if isinstance(q.v, SVar) else SVar(real(q.v)))
                    rows.append(tuple(row))
                else:
                    rows.append((r if isinstance(r, SVar) else SVar(real(r)),))
            return Opaque("matrix", tuple(rows))
        if isinstance(v, SVar):
            return Opaque("matrix", ((v,),))
        raise Unsupported("VariableMatrix constructor")
    if nm == "variant":
        v = ex.rv(st, vals[0][0]) if vals else None
        if v is None:
            return ex.default(st, ty)
        if isinstance(v, Variant):
            return v
        return ex.to_variant(v, vals[0][1], ty)
    if nm in ("basic_string", "string", "basic_string_view"):
        if not vals:
            return Opaque("str", ("",))
        vs = [ex.rv(st, v) for v, _ in vals]
        if len(vs) == 1:
            return text(vs[0])
        a, b = vs[0], vs[1]
        if len(vs) == 2 and all(isinstance(x, Opaque) and len(x.args) == 1 for x in (a, b)) and \
                (a.key, b.key) in (("m:data", "m:size"), ("m:data", "m:length"), ("m:begin", "m:end"),
                                   ("m:cbegin", "m:cend"), ("m:c_str", "m:size"), ("m:c_str", "m:length")) and \
                V.same(a.args[0], b.args[0]):
            return text(a.args[0])
        # some part of a text: a value of its own
        return Opaque("str:part", tuple(vs))
    if nm in ("function", "Fn"):
        return ex.rv(st, vals[0][0]) if vals else Opaque("nullfn")
    if nm == "lambda":
        return ex.rv(st, vals[0][0])
    if nm == "unexpected":
        v = ex.rv(st, vals[0][0])
        if isinstance(v, Struct) and v.ty == "unexpected":
            return v
        return Struct("unexpected", {"err": v})
    if nm == "nullopt_t":
        return Opaque("nullopt")
    if nm == "optional":
        if not vals:
            return no_value(ex, st, ty.args[0])
        return to_optional(ex, st, ex.rv(st, vals[0][0]), vals[0][1], ty.args[0])
    if nm == "expected":
        if not vals:
            return Struct("expected", {"has": TRUE, "val": ex.default(st, ty.args[0]), "err": Opaque("noerr")})
        v = ex.rv(st, vals[0][0])
        if isinstance(v, Struct) and v.ty == "expected":
            return v
        if isinstance(v, Struct) and v.ty == "unexpected":
            return Struct("expected", {"has": FALSE, "val": Opaque("noval"), "err": v.f["err"]})
        return Struct("expected", {"has": TRUE, "val": v, "err": Opaque("noerr")})
    if nm in ("atomic", "__atomic_base"):
        return ex.rv(st, vals[0][0]) if vals else ZERO
    if nm == "span" and len(vals) == 1 and "const" in ty.raw.split("span")[-1].split(",")[0]:
        v = ex.rv(st, vals[0][0])       # read-only: the sequence itself
        if isinstance(v, Vec):
            return v
    if nm == "pair":
        if len(vals) == 2:
            return Struct(ty.canon(), {f: member_value(ex, st, v, t, a)
                                       for f, (v, t), a in zip(("first", "second"), vals, ty.args)})
        if len(vals) == 1:
            return ex.rv(st, vals[0][0])
    if nm == "tuple" and vals and len(vals) == len(ty.args) and not any(a.ref for a in ty.args):
        return Struct(ty.canon(), {"$t%d" % i: member_value(ex, st, v, t, ty.args[i])
                                   for i, (v, t) in enumerate(vals)})
    if nm in ("runtime_error", "logic_error", "invalid_argument", "out_of_range"):
        return Opaque(nm, tuple(ex.rv(st, v) for v, _ in vals))
    if nm == "array" and len(vals) == 1:
        return ex.rv(st, vals[0][0])
    if nm in ("plus", "multiplies", "minus", "less"):
        return Opaque(nm)
    if nm in ("__normal_iterator", "reverse_iterator", "move_iterator") or nm.endswith("iterator"):
        return ex.rv(st, vals[0][0])
    if nm == "OptimizationProblem" and not vals:
        return ex.new_problem(st)
    if nm in ("duration", "time_point"):
        # seconds as a real number
        if not vals:
            return z3.RealVal(0)
        v, t = ex.rv(st, vals[0][0]), vals[0][1]
        if len(vals) == 1 and isinstance(v, z3.ExprRef):
            if t is not None and t.name in ("duration", "time_point"):
                return v
            r = real(v)
            if len(ty.args) > 1 and ty.args[1].name == "ratio" and len(ty.args[1].args) == 2:
                n, d = [int(a.name) for a in ty.args[1].args]
                r = r * z3.Q(n, d)
            return simp(r)
        raise Unsupported("construction of " + ty.canon())
    if nm in ("unique_ptr", "shared_ptr") and vals:
        return vals[0][0]
    if len(vals) == 1:
        v = ex.rv(st, vals[0][0])
        if isinstance(v, (Struct, Opaque, Closure, FuncV)):
            return v
    if not vals:
        return Opaque(ty.canon())
    raise Unsupported("construction of %s" % ty.canon())


def no_value(ex, st, el):
    return Struct("optional", {"has": FALSE, "val": BAD})


def to_optional(ex, st, v, fr, el):
    if isinstance(v, Struct) and v.ty == "optional":
        if fr is not None and fr.args and fr.args[0].canon() != el.canon():
            return Struct("optional", {"has": v.f["has"], "val": ex.convert(st, v.f["val"], fr.args[0], el)})
        return v
    if isinstance(v, Opaque) and v.key == "nullopt":
        return no_value(ex, st, el)
    return Struct("optional", {"has": TRUE, "val": ex.convert(st, v, fr, el)})


def convert_vec(ex, st, v, fr, to):
    el = to.args[0]
    if not v.pieces:
        return Vec(el.canon())
    if T.is_float(el) or el.name in ("Variable", "variant"):
        # initializer lists arrive with already converted elements
        pass
    return Vec(el.canon(), v.pieces)


def cons_items(vec, guard, out):
    for p in vec.pieces:
        if isinstance(p, One):
            for it in p.v.items:
                out.append(guard_item(guard, it))
        elif isinstance(p, IteP):
            cons_items(p.a, And(guard, p.c), out)
            cons_items(p.b, And(guard, Not(p.c)), out)
        elif isinstance(p, Sym) and isinstance(p.elem, ConsV):
            out.append(("all", p.J, p.n, tuple(guard_item(guard, it) for it in p.elem.items)))
        elif isinstance(p, Flat):
            inner = []
            cons_items(p.inner, guard, inner)
            out.append(("all", p.J, p.k, tuple(inner)))
        else:
            raise Unsupported("constraint list")


# -------------------------------------------------------------- member calls

def member_call(ex, st, name, b, bty, argn, n):
    v = ex.rv(st, b)
    if isinstance(v, Ref):
        b = v
        v = ex.load(st, v)
    if bty.name == "reference_wrapper" and (name == "get" or name.startswith("operator ")):
        return b
    if isinstance(v, Vec):
        return vec_method(ex, st, name, b, bty, argn, n)
    if isinstance(v, SVar):
        return var_method(ex, st, name, b, v, argn, n)
    if isinstance(v, Struct) and v.ty == "OptimizationProblem":
        return problem_method(ex, st, name, b, v, argn, n)
    if isinstance(v, Struct) and v.ty == "expected":
        if name == "has_value" or name == "operator bool":
            return v.f["has"]
        if name == "value":
            ex.ob(st, "expected holds a value", v.f["has"])
            return b.field("val") if isinstance(b, Ref) else v.f["val"]
        if name == "error":
            ex.ob(st, "expected holds an error", Not(v.f["has"]))
            return b.field("err") if isinstance(b, Ref) else v.f["err"]
        if name == "operator*" or name == "operator->":
            return b.field("val")
    if isinstance(v, Struct) and v.ty == "optional":
        if name == "has_value" or name == "operator bool":
            return v.f["has"]
        if name in ("value", "operator*", "operator->"):
            ex.ob(st, "optional holds a value", v.f["has"])
            return b.field("val") if isinstance(b, Ref) else v.f["val"]
        if name == "value_or" and len(argn) == 1:
            d = ex.convert(st, ex.val(st, argn[0]), ex.prog.ty(argn[0]), ex.prog.ty(n).noref())
            return merge_v(v.f["has"], v.f["val"], d)
        if name == "reset":
            ex.store(st, b, Struct("optional", {"has": FALSE, "val": v.f["val"]}))
            return UNIT
        if name == "emplace" and len(argn) == 1 and bty is not None and bty.args:
            ex.store(st, b, to_optional(ex, st, ex.val(st, argn[0]), ex.prog.ty(argn[0]), bty.args[0]))
            return b.field("val")
    if isinstance(v, Struct) and v.ty == "unexpected" and name in ("value", "error"):
        return v.f["err"]
    if isinstance(v, z3.ExprRef):
        # atomics
        if name in ("load", "operator int", "operator __integral_type") or name.startswith("operator "):
            return v
        if name == "store":
            ex.store(st, b, ex.convert(st, ex.val(st, argn[0]), ex.prog.ty(argn[0]), T.parse("int")))
            return UNIT
        if name == "exchange":
            ex.store(st, b, ex.convert(st, ex.val(st, argn[0]), ex.prog.ty(argn[0]), T.parse("int")))
            return v
    if isinstance(v, Iter):
        if name == "base":
            return v
    if isinstance(v, Variant):
        if name == "index":
            return v.tag
    if isinstance(v, (Closure, FuncV)) and name in ("operator()",):
        return ex.invoke(st, v, ex_args(ex, st, argn))
    if isinstance(v, (FuncV, Closure)) and name == "operator bool":
        return TRUE
    if isinstance(v, Opaque):
        args = [ex.rv(st, ex.eval(st, a)) for a in argn if a["kind"] != "CXXDefaultArgExpr"]
        return Opaque("m:" + name, (v,) + tuple(args))
    raise Unsupported("member %s of %s" % (name, type(v).__name__))


def bound_check(ex, st, v, i, what):
    ex.ob(st, what, And(i >= 0, i < v.size()))


def vec_method(ex, st, name, b, bty, argn, n):
    if not isinstance(b, Ref):
        b = ex.new_cell(st, b, "tmp")
    v = ex.load(st, b)
    if not isinstance(v, Vec):
        raise Unsupported("container expected")
    if name in ("size", "length"):
        return v.size()
    if name == "ssize":
        return v.size()
    if name == "empty":
        return simp(v.size() == 0)
    if name == "max_size":
        return lit(2 ** 63 - 1)
    if name in ("reserve", "shrink_to_fit"):
        for a in argn:
            ex.val(st, a)
        return UNIT
    if name == "capacity":
        c = z3.Int(V.uid("cap"))
        P.RANGED[c.decl().name()] = (0, 2 ** 60)
        st.assume(c >= v.size())
        return c
    if name == "data":
        return Iter(b, ZERO)
    if name in ("at", "operator[]"):
        i = ex.val(st, argn[0])
        v = ex.load(st, b)
        bound_check(ex, st, v, i, "vector index in bounds")
        return b.index(simp(i))
    if name == "front":
        bound_check(ex, st, v, ZERO, "front() of non-empty vector")
        return b.index(ZERO)
    if name == "back":
        bound_check(ex, st, v, ZERO, "back() of non-empty vector")
        return b.index(simp(v.size() - 1))
    if name in ("begin", "cbegin"):
        return Iter(b, ZERO)
    if name in ("end", "cend"):
        return Iter(b, v.size())
    ety = bty.args[0] if bty.args else T.parse(v.ety)
    if name == "push_back" or name == "insert_back":
        a = ex.eval(st, argn[0])
        x = take(ex, st, a, argn[0])
        x = ex.convert(st, x, ex.prog.ty(argn[0]), ety)
        v = ex.load(st, b)
        ex.store(st, b, v.append(x))
        return UNIT
    if name == "emplace_back":
        args = [(ex.eval(st, a), ex.prog.ty(a)) for a in argn]
        if len(args) == 1 and args[0][1].canon() == ety.canon():
            x = take(ex, st, args[0][0], argn[0])
        else:
            x = construct_elem(ex, st, ety, args)
            for (r, _), a in zip(args, argn):
                if isinstance(r, Ref) and is_move_expr(a) and not r.cell.startswith("tmp"):
                    w = ex.load(st, r)
                    if _has_vec(w):
                        ex.store(st, r, moved(w))
        v = ex.load(st, b)
        ex.store(st, b, v.append(x))
        return b.index(v.size())
    if name == "pop_back":
        bound_check(ex, st, v, ZERO, "pop_back() of non-empty vector")
        ex.store(st, b, v.drop_last())
        return UNIT
    if name == "clear":
        ex.store(st, b, Vec(v.ety))
        return UNIT
    if name == "resize":
        k = ex.val(st, argn[0])
        e = ex.convert(st, ex.val(st, argn[1]), ex.prog.ty(argn[1]), ety) if len(argn) > 1 else ex.default(st, ety)
        s = v.size()
        d = ex.decide_in(st, simp(k >= s))
        J = fresh_int("j")
        grow = v.concat(Vec(v.ety, (Sym(simp(k - s), J, e),)))
        if is_int_const(s, 0):
            ex.store(st, b, Vec(v.ety, (Sym(k, J, e),)))
        elif d is True:
            ex.store(st, b, grow)
        elif d is False:
            ex.store(st, b, v.slice(ZERO, k))
        else:
            ex.store(st, b, V.merge_v(simp(k >= s), grow, v.slice(ZERO, k)))
        return UNIT
    if name == "assign":
        args = [ex.val(st, a) for a in argn]
        if isinstance(args[0], Iter):
            ex.store(st, b, ex.load(st, args[0].ref).slice(args[0].idx, args[1].idx))
        elif isinstance(args[0], Vec):
            ex.store(st, b, args[0])
        else:
            e = ex.convert(st, args[1], ex.prog.ty(argn[1]), ety)
            ex.store(st, b, Vec(v.ety, (Sym(args[0], fresh_int("j"), e),)))
        return UNIT
    if name == "insert":
        args = [ex.eval(st, a) for a in argn]
        pos = ex.rv(st, args[0])
        v = ex.load(st, b)
        rest = [ex.rv(st, a) for a in args[1:]]
        if len(rest) == 2 and isinstance(rest[0], Iter):
            src = ex.load(st, rest[0].ref)
            ex.ob(st, "inserted range in bounds",
                  And(rest[0].idx >= 0, rest[1].idx <= src.size(), rest[0].idx <= rest[1].idx))
            mid = src.slice(rest[0].idx, rest[1].idx)
        elif len(rest) == 1 and isinstance(rest[0], Vec) and v.ety != rest[0].ety and False:
            mid = rest[0]
        elif len(rest) == 1 and isinstance(rest[0], Vec) and ex.prog.ty(argn[1]).name == "initializer_list":
            mid = rest[0]
        elif len(rest) == 1:
            mid = Vec(v.ety, (One(ex.convert(st, rest[0], ex.prog.ty(argn[1]), ety)),))
        else:
            mid = Vec(v.ety, (Sym(rest[0], fresh_int("j"),
                                  ex.convert(st, rest[1], ex.prog.ty(argn[2]), ety)),))
        ex.ob(st, "insert position in bounds", And(pos.idx >= 0, pos.idx <= v.size()))
        if is_int_const(pos.idx, 0):
            nv = mid.concat(v)
        elif pos.idx.eq(v.size()):
            nv = v.concat(mid)
        else:
            nv = v.slice(ZERO, pos.idx).concat(mid).concat(v.slice(pos.idx, v.size()))
        ex.store(st, b, Vec(v.ety, nv.pieces))
        return Iter(b, pos.idx)
    if name == "erase":
        p = [ex.val(st, a) for a in argn]
        if not all(isinstance(x, Iter) for x in p):
            raise Unsupported("erase")
        lo, hi = p[0].idx, (p[1].idx if len(p) > 1 else simp(p[0].idx + 1))
        ex.ob(st, "erased range in bounds", And(lo >= 0, lo <= hi, hi <= v.size()))
        ex.store(st, b, v.slice(ZERO, lo).concat(v.slice(hi, v.size())))
        return Iter(b, lo)
    if name == "swap":
        o = ex.eval(st, argn[0])
        w = ex.load(st, o)
        ex.store(st, o, v)
        ex.store(st, b, w)
        return UNIT
    if name == "operator=":
        ex.store(st, b, ex.val(st, argn[0]))
        return b
    raise Unsupported("vector member " + name)


def construct_elem(ex, st, ety, args):
    if not args:
        return ex.default(st, ety)
    if T.is_float(ety) or T.is_int(ety) or T.is_bool(ety) or ety.name in ("Variable", "variant"):
        v = ex.rv(st, args[0][0])
        return ex.convert(st, v, args[0][1], ety)
    if ety.name in ("vector", "Vec"):
        return construct(ex, st, ety, args, "")
    if ety.name in ("function", "Fn"):
        return ex.rv(st, args[0][0])
    if len(args) == 1 and isinstance(ex.rv(st, args[0][0]), ConsV):
        return ex.rv(st, args[0][0])
    return ex.construct(st, ety, args)


def now(ex, st):
    """a clock that never runs backwards; $now is its latest reading"""
    t = z3.Real(V.uid("now"))
    last = st.cells.get("$now")
    if last is not None:
        st.assume(t >= last)
    st.cells["$now"] = t
    return t


# ---------------------------------------------------------- sleipnir Variable

def var_ref(ex, st, v):
    if v.node is None:
        raise Unsupported("SetValue on an expression")
    site, idx = v.node
    key = "val:" + site
    if key not in st.cells:
        st.cells[key] = val_map(site, len(idx))
    return Ref(key, idx)


UNBOUNDED = z3.Int("%unbounded")


def val_map(site, depth):
    """initial values of the variables created at one site: 0"""
    v = z3.RealVal(0)
    for d in range(depth):
        v = Vec("val", (Sym(UNBOUNDED, fresh_int("j"), v),))
    return v


def var_method(ex, st, name, b, v, argn, n):
    if name == "Value":
        if st.flags.get("solved"):
            return v.den
        if v.node is not None:
            return ex.load(st, var_ref(ex, st, v))
        if z3.is_rational_value(v.den):
            return v.den
        if st.flags.get("generic_values"):
            return v.den
        raise Unsupported("Value() of an expression before solving")
    if name == "SetValue":
        x = ex.convert(st, ex.val(st, argn[0]), ex.prog.ty(argn[0]), T.parse("double"))
        r = var_ref(ex, st, v)
        ex.store(st, r, x)
        return UNIT
    if name == "operator=":
        x = ex.val(st, argn[0])
        ex.store(st, b, ex.convert(st, x, ex.prog.ty(argn[0]), T.parse("sleipnir::Variable")))
        return b
    if name == "Type":
        return Opaque("vartype")
    raise Unsupported("Variable::" + name)


def dv_site(ex, st, n):
    return "%s@%s" % (n.get("id"), ",".join(st.stack))


def problem_method(ex, st, name, b, v, argn, n):
    if name == "DecisionVariable":
        if argn and any(a["kind"] != "CXXDefaultArgExpr" for a in argn):
            raise Unsupported("DecisionVariable(rows, cols)")
        site = "%s" % abs(hash_site(ex, dv_site(ex, st, n)))
        idx = tuple(st.loops)
        if idx:
            den = z3.Function("dv" + site, *([I] * len(idx) + [R]))(*idx)
        else:
            den = z3.Real("dv" + site)
        return SVar(den, (site, idx))
    if name == "SubjectTo":
        c = ex.val(st, argn[0])
        if not isinstance(c, ConsV):
            raise Unsupported("SubjectTo argument")
        lg = ex.load(st, b.field("log"))
        ex.store(st, b.field("log"), lg.add(c.items))
        return UNIT
    if name in ("Minimize", "Maximize"):
        c = ex.val(st, argn[0])
        d = c.den if isinstance(c, SVar) else real(c)
        ex.store(st, b.field("objective"), Struct("objective", {
            "sense": Opaque(name), "den": d}))
        return UNIT
    if name == "Callback":
        ex.store(st, b.field("callback"), ex.val(st, argn[0]))
        return UNIT
    if name == "Solve":
        cfg = ex.val(st, argn[0]) if argn and argn[0]["kind"] != "CXXDefaultArgExpr" else Opaque("defaultcfg")
        ex.event(st, "Solve", (ex.load(st, b.field("callback")), cfg))
        hook = ex.contracts.get("$solve")
        if hook is not None:
            return hook(ex, st, b, cfg)
        st.flags["solved"] = True
        k = z3.Int(V.uid("exit"))
        P.RANGED[k.decl().name()] = (-7, 2)
        return Struct("SolverStatus", {"exitCondition": k})
    raise Unsupported("OptimizationProblem::" + name)


_sites = {}


def hash_site(ex, s):
    r = _sites.get(s)
    if r is None:
        r = len(_sites) + 1
        _sites[s] = r
    return r


# ------------------------------------------------------------ operator calls

def operator_call(ex, st, name, argn, n):
    op = name[len("operator"):].strip()
    if op == "()":
        f = argn[0]
        while f["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            f = f["inner"][0]
        d = f.get("referencedDecl", {})
        if d.get("kind") == "VarDecl" and d["id"] not in ex.prog.by_id and \
                d.get("name") in ALGOS + ("max", "min", "clamp", "swap", "size", "empty", "begin", "end", "distance"):
            return free_call(ex, st, d["name"], n, [a for a in argn[1:] if a["kind"] != "CXXDefaultArgExpr"])
    a0 = ex.eval(st, argn[0])
    if op == "()":
        args = [ex.eval(st, a) for a in argn[1:]]
        return ex.invoke(st, a0, args)
    v0 = ex.rv(st, a0)
    if isinstance(v0, Ref) and op in ("*", "->"):
        return v0
    if op == "[]":
        return vec_method(ex, st, "operator[]", a0, ex.prog.ty(argn[0]), argn[1:], n)
    if op == "=":
        if isinstance(v0, SVar) or ex.prog.ty(argn[0]).name == "Variable":
            x = ex.val(st, argn[1])
            ex.store(st, a0, ex.convert(st, x, ex.prog.ty(argn[1]), T.parse("sleipnir::Variable")))
            return a0
        a1 = ex.eval(st, argn[1])
        x = take(ex, st, a1, argn[1])
        ty = ex.prog.ty(argn[0])
        if isinstance(v0, z3.ExprRef):
            x = ex.convert(st, x, ex.prog.ty(argn[1]), T.parse("int") if v0.sort() == I else ty)
        elif isinstance(v0, Variant):
            x = ex.convert(st, x, ex.prog.ty(argn[1]), T.Ty("variant", v0.types))
        elif isinstance(v0, Struct) and tuple_fields(v0) and any(isinstance(y, Ref) for y in v0.f.values()):
            fs = tuple_fields(v0)
            if not (isinstance(x, Struct) and tuple_fields(x) and len(tuple_fields(x)) == len(fs)):
                raise Unsupported("assignment to a tuple of references")
            new = [ex.rv(st, x.f[k]) for k in tuple_fields(x)]
            for k, y in zip(fs, new):
                r = v0.f[k]
                if not isinstance(r, Ref):
                    raise Unsupported("assignment to a tuple of references")
                old = ex.load(st, r)
                if isinstance(old, z3.ExprRef) and not (isinstance(y, z3.ExprRef) and y.sort() == old.sort()):
                    raise Unsupported("conversion in a tuple assignment")
                ex.store(st, r, y)
            return a0
        elif isinstance(v0, Struct) and v0.ty == "optional" and ty.args:
            x = to_optional(ex, st, x, ex.prog.ty(argn[1]), ty.args[0])
        ex.store(st, a0, x)
        return a0
    if op in ("*", "->") and len(argn) == 1:
        if isinstance(v0, Iter):
            c = ex.load(st, v0.ref)
            bound_check(ex, st, c, v0.idx, "iterator dereference in bounds")
            return v0.ref.index(v0.idx)
        if isinstance(v0, Struct) and v0.ty in ("expected", "optional"):
            ex.ob(st, v0.ty + " holds a value", v0.f["has"])
            return a0.field("val") if isinstance(a0, Ref) else v0.f["val"]
        if isinstance(a0, Ref):
            return a0
    if op in ("++", "--") and isinstance(v0, Iter):
        nv = Iter(v0.ref, simp(v0.idx + (1 if op == "++" else -1)))
        ex.store(st, a0, nv)
        return a0 if len(argn) == 1 else v0
    if len(argn) == 1:
        if op == "-" and isinstance(v0, SVar):
            return SVar(simp(-v0.den))
        if op == "+" and isinstance(v0, SVar):
            return v0
        raise Unsupported("unary operator " + op)
    a1 = ex.eval(st, argn[1])
    v1 = ex.rv(st, a1)
    if op in ("+=", "-=", "*=", "/=") and isinstance(v0, SVar):
        r = ex.svar_op(op[0], v0, v1)
        ex.store(st, a0, r)
        return a0
    if op in ("+=", "-=") and isinstance(v0, Iter):
        ex.store(st, a0, Iter(v0.ref, simp(v0.idx + (v1 if op == "+=" else -v1))))
        return a0
    if isinstance(v0, Opaque) and v0.key == "matrix" and isinstance(v1, Opaque) and v1.key == "matrix":
        if op not in ("==", "<=", ">="):
            raise Unsupported("VariableMatrix operator " + op)
        items = []
        if len(v0.args) != len(v1.args):
            raise Unsupported("matrix shapes")
        for r0, r1 in zip(v0.args, v1.args):
            for x, y in zip(r0, r1):
                items.extend(ex.svar_op(op, x, y).items)
        return ConsV("eq" if op == "==" else "ineq", items)
    if isinstance(v0, SVar) or isinstance(v1, SVar):
        return ex.svar_op(op, v0, v1)
    if isinstance(v0, Iter) and isinstance(v1, Iter):
        if op == "-":
            return simp(v0.idx - v1.idx)
        return ex.compare(st, op, v0, v1)
    if isinstance(v0, Iter) and op in ("+", "-"):
        return Iter(v0.ref, simp(v0.idx + (v1 if op == "+" else -v1)))
    if isinstance(v1, Iter) and op == "+":
        return Iter(v1.ref, simp(v1.idx + v0))
    if op in ("<", ">", "<=", ">=", "==", "!="):
        # the outcome of <=> against the literal 0
        un = [ex.prog.ty(a).name in ("__unspec", "_Unspec", "nullptr_t") for a in argn[:2]]
        if un[1] and isinstance(v0, z3.ExprRef):
            return ex.compare(st, op, v0, ZERO)
        if un[0] and isinstance(v1, z3.ExprRef):
            return ex.compare(st, op, ZERO, v1)
    if isinstance(v0, Opaque) or isinstance(v1, Opaque):
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return ex.opaque_bool(op, v0, v1)
        if op in ("<<", ">>"):
            return a0
        return Opaque("op" + op, (v0, v1))
    if isinstance(v0, z3.ExprRef) and isinstance(v1, z3.ExprRef):
        if op in ("==", "!=", "<", "<=", ">", ">="):
            return ex.compare(st, op, v0, v1)
        if op == "<=>":
            return ite(ex.compare(st, "<", v0, v1), lit(-1), ite(ex.compare(st, "==", v0, v1), ZERO, ONE))
        if op.endswith("=") and len(op) == 2:
            r = ex.arith(st, op[0], v0, v1, T.parse("int"))
            ex.store(st, a0, r)
            return a0
        return ex.arith(st, op, v0, v1, ex.prog.ty(n))
    raise Unsupported("operator%s on %s, %s" % (op, type(v0).__name__, type(v1).__name__))
