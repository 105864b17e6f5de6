"""Contracts of the external functions (core, alloc, libm, nalgebra, rayon) that the verified
code calls.  Each entry states what the function returns, what it requires (an obligation)
and what it changes.  Everything here is trusted and listed in the evidence."""
import re
from fractions import Fraction as Fr
from term import *
from logic import *
from val import *
import term as T_

_norm = {}


def norm(path):
    r = _norm.get(path)
    if r is not None:
        return r
    s = re.sub(r"<impl (\[?[A-Za-z0-9_]+\]?)>", r"\1", path)
    out, depth, i = [], 0, 0
    while i < len(s):
        if s.startswith("::<", i) and depth == 0:
            depth = 1
            i += 3
            continue
        ch = s[i]
        if depth:
            if ch == "<":
                depth += 1
            elif ch == ">" and s[i - 1] != "-":
                depth -= 1
        else:
            out.append(ch)
        i += 1
    r = "".join(out)
    _norm[path] = r
    return r


# ---------------------------------------------------------------- iterators
def it(src, lo, hi):
    return Agg("iter", (src, lift(lo), lift(hi)))


def is_local_newtype(eng, v):
    return isinstance(v, Agg) and v.tag.startswith("gauss_quad") and len(v.f) == 1 and isinstance(v.f[0], Agg) and (
        v.f[0].tag == "iter" or is_local_newtype(eng, v.f[0]))


def local_iter(eng, st, v, what="next"):
    """a local iterator type may be viewed through its field only when its own methods agree
    with the field's; this is the contract that the check of C10 establishes"""
    eng.used_contracts.add("%s as Iterator (contract: C10)" % v.tag)


def to_iter(eng, st, v):
    if isinstance(v, Agg):
        if v.tag == "iter":
            return v
        if v.tag == "core::ops::range::Range":
            a, b = v.f
            hi = b if entails(st.pc, le(a, b)) else mk_max(a, b)
            return it(Agg("s:range", ()), a, hi)
        if v.tag == "rinc":
            a, b = v.f
            hi = b + 1 if entails(st.pc, le(a, b + 1)) else mk_max(a, b + 1)
            return it(Agg("s:range", ()), a, hi)
        if v.tag == "core::ops::range::RangeFrom":
            return it(Agg("s:range", ()), v.f[0], K(2 ** 200))
        if is_local_newtype(eng, v):
            local_iter(eng, st, v)
            return to_iter(eng, st, v.f[0])
        if v.tag == "core::option::Option":
            return it(Agg("s:own", (mklist(list(v.f)),)), ZERO, K(len(v.f)))
        if v.tag == "matrow" or v.tag == "matcol":
            return mat_iter(eng, st, v)
    if isinstance(v, Arr) and len(v.dims) == 1:
        return it(Agg("s:own", (v,)), ZERO, v.dims[0])
    if isinstance(v, Ref):
        x = eng.read(st, v) if not (v.path and v.path[-1][0] == "r") else None
        if x is None or isinstance(x, Arr):
            n = eng.alen(st, v)
            return it(Agg("s:ref", (v,)), ZERO, n)
        if isinstance(x, Agg) and x.tag in ("matrow", "matcol"):
            return mat_iter(eng, st, x)
        if isinstance(x, Agg) and (x.tag in ("iter", "core::ops::range::Range") or is_local_newtype(eng, x)):
            return it(Agg("s:mut", (v,)), ZERO, ZERO)
        if isinstance(x, Ref):
            return to_iter(eng, st, x)
    raise Unsupported("iteration over %s" % (v.tag if isinstance(v, Agg) else type(v).__name__))


def mat_iter(eng, st, v):
    a = eng.read(st, v.f[0])
    n = a.dims[1] if v.tag == "matrow" else a.dims[0]
    return it(Agg("s:" + v.tag, v.f), ZERO, n)


def iter_update(v, lo, hi):
    """v with its remaining range replaced"""
    if v.tag == "iter":
        return Agg("iter", (v.f[0], lo, hi))
    if v.tag == "core::ops::range::Range":
        return Agg(v.tag, (lo, hi))
    if v.tag == "rinc":
        return Agg(v.tag, (lo, hi - 1))
    if v.tag.startswith("gauss_quad") and len(v.f) == 1:
        return Agg(v.tag, (iter_update(v.f[0], lo, hi),), v.var)
    raise Unsupported("iterator state of %s" % v.tag)


def elem(eng, st, src, i, ctx):
    """the item at virtual index i: [(state, value)]"""
    k = src.tag
    if k == "s:range":
        return [(st, i)]
    if k == "s:own":
        return [(st, src.f[0].get(i))]
    if k == "s:ref":
        return [(st, src.f[0].ext(("i", i)))]
    if k == "s:map":
        out = []
        for s, x in elem(eng, st, src.f[0], i, ctx):
            out += [(s, x)] if x is SKIP else eng.call_value(s, src.f[1], [x], ctx)
        return out
    if k == "s:filter":
        out = []
        for s, x in elem(eng, st, src.f[0], i, ctx):
            if x is SKIP:
                out.append((s, x))
                continue
            r = eng.alloc(s, x)
            for s2, c in eng.call_value(s, src.f[1], [r], ctx):
                for truth, s3 in eng.split(s2, c):
                    out.append((s3, x if truth else SKIP))
        return out
    if k == "s:filtermap":
        out = []
        for s, x in elem(eng, st, src.f[0], i, ctx):
            if x is SKIP:
                out.append((s, x))
                continue
            for s2, o in eng.call_value(s, src.f[1], [x], ctx):
                if not (isinstance(o, Agg) and o.var in (0, 1)):
                    raise Unsupported("filter_map")
                out.append((s2, o.f[0] if o.var == 1 else SKIP))
        return out
    if k == "s:inspect":
        out = []
        for s, x in elem(eng, st, src.f[0], i, ctx):
            out += [(s, x)] if x is SKIP else [(s2, x) for s2, _ in eng.call_value(s, src.f[1], [eng.alloc(s, x)], ctx)]
        return out
    if k == "s:aff":
        return elem(eng, st, src.f[0], src.f[2] - i, ctx)
    if k == "s:enum":
        return [(s, tup(i - src.f[1], x)) for s, x in elem(eng, st, src.f[0], i, ctx)]
    if k == "s:zip":
        out = []
        for s, x in elem(eng, st, src.f[0], i + src.f[1], ctx):
            for s2, y in elem(eng, s, src.f[2], i + src.f[3], ctx):
                out.append((s2, tup(x, y)))
        return out
    if k == "s:copied":
        return [(s, eng.read(s, x) if isinstance(x, Ref) else x) for s, x in elem(eng, st, src.f[0], i, ctx)]
    if k == "s:chain":
        a, la, na, b, lb = src.f
        out = []
        for truth, s in eng.split(st, lt(i, na)):
            out += elem(eng, s, a, la + i, ctx) if truth else elem(eng, s, b, lb + i - na, ctx)
        return out
    if k == "s:step":
        return elem(eng, st, src.f[0], src.f[1] + i * src.f[2], ctx)
    if k == "s:matrow":
        return [(st, src.f[0].ext(("m", src.f[1], i)))]
    if k == "s:matcol":
        return [(st, src.f[0].ext(("m", i, src.f[1])))]
    if k == "s:win":
        r, w, stp = src.f
        return [(st, r.ext(("r", i * stp, i * stp + w)))]
    if k == "s:repeat":
        return [(st, src.f[0])]
    raise Unsupported("iterator %s" % k)


SKIP = Opq("skip", "item left out by a filter")


def filtered(src):
    return src.tag in ("s:filter", "s:filtermap") or any(filtered(x) for x in src.f if isinstance(x, Agg) and x.tag.startswith("s:"))


def pure(src):
    if src.tag == "s:map":
        return False
    return all(pure(x) for x in src.f if isinstance(x, Agg) and x.tag.startswith("s:"))


def pull(eng, st, ref, ctx, back=False, skip=None):
    """next / next_back / nth / nth_back on the iterator behind ref"""
    v = eng.read(st, ref)
    while isinstance(v, Ref):
        ref = v
        v = eng.read(st, ref)
    w = to_iter(eng, st, v)
    src, lo, hi = w.f
    if src.tag == "s:mut":
        return pull(eng, st, src.f[0], ctx, back, skip)
    if filtered(src):
        raise Unsupported("next on a filtered iterator")
    n = ZERO if skip is None else skip
    if not pure(src) and not n.is_zero():
        eng.notes.add("nth on a mapping iterator skips the closure calls of the skipped items")
    out = []
    for truth, s in eng.split(st, lt(lo + n, hi)):
        if truth:
            i = (hi - 1 - n) if back else (lo + n)
            nv = iter_update(v, lo, i) if back else iter_update(v, i + 1, hi)
            s = s.fork()
            eng.write(s, ref, nv)
            out += [(s2, some(x)) for s2, x in elem(eng, s, src, i, ctx)]
        else:
            s = s.fork()
            # exhausted: nth consumes what is left
            if entails(s.pc, le(lo, hi)) or True:
                nv = iter_update(v, lo, lo) if back else iter_update(v, hi, hi)
                if not n.is_zero():
                    eng.write(s, ref, nv)
            out.append((s, NONE))
    return out


def adapt(eng, st, name, args, ctx):
    """iterator adaptors: (new iterator value) or None"""
    w = to_iter(eng, st, args[0])
    src, lo, hi = w.f
    if src.tag == "s:mut":
        raise Unsupported("adaptor over a borrowed iterator")
    if name in ("into_iter", "iter", "par_iter", "into_par_iter", "by_ref", "with_min_len", "with_max_len", "fuse",
                "into_iter_sorted", "by_exponential_blocks", "by_uniform_blocks"):
        return w
    if name == "map":
        return it(Agg("s:map", (src, callee(eng, st, args[1]))), lo, hi)
    if name in ("inspect", "filter", "filter_map"):
        return it(Agg("s:" + name.replace("_", ""), (src, callee(eng, st, args[1]))), lo, hi)
    if filtered(src) and name not in ("rev", "copied", "cloned", "chain"):
        raise Unsupported("%s of a filtered iterator" % name)
    if name == "rev":
        return it(Agg("s:aff", (src, K(-1), lo + hi - 1)), lo, hi)
    if name == "enumerate":
        return it(Agg("s:enum", (src, lo)), lo, hi)
    if name in ("copied", "cloned"):
        return it(Agg("s:copied", (src,)), lo, hi)
    if name == "zip" or name == "zip_eq":
        o = to_iter(eng, st, args[1])
        s2, lo2, hi2 = o.f
        if "s:mut" in (src.tag, s2.tag):
            raise Unsupported("zip of borrowed iterators")
        n1, n2 = hi - lo, hi2 - lo2
        n = n1 if entails(st.pc, le(n1, n2)) else (n2 if entails(st.pc, le(n2, n1)) else mk_min(n1, n2))
        return it(Agg("s:zip", (src, lo, s2, lo2)), ZERO, n)
    if name == "chain":
        o = to_iter(eng, st, args[1])
        s2, lo2, hi2 = o.f
        if s2.tag == "s:mut":
            raise Unsupported("chain of borrowed iterators")
        return it(Agg("s:chain", (src, lo, hi - lo, s2, lo2)), ZERO, hi - lo + hi2 - lo2)
    if name == "skip":
        n = args[1]
        nlo = lo + n if entails(st.pc, le(lo + n, hi)) else mk_min(lo + n, hi)
        return it(src, nlo, hi)
    if name == "take":
        n = args[1]
        nhi = lo + n if entails(st.pc, le(lo + n, hi)) else mk_min(lo + n, hi)
        return it(src, lo, nhi)
    if name == "step_by":
        k = args[1]
        eng.oblige(st, lt(0, k), "panic", "step_by step is not zero", ctx.get("line"))
        return it(Agg("s:step", (src, lo, k)), ZERO, mk_idiv(hi - lo + k - 1, k))
    return None


ADAPTORS = {"into_iter", "by_ref", "map", "rev", "enumerate", "copied", "cloned", "zip", "zip_eq", "chain", "skip",
            "take", "step_by", "inspect", "filter", "filter_map", "par_iter", "into_par_iter", "with_min_len", "with_max_len", "fuse"}


def callee(eng, st, f):
    """closures live in a heap cell so that captured state can change"""
    if isinstance(f, Agg) and f.tag.startswith("closure:"):
        return eng.alloc(st, f)
    return f


def drive(eng, st, w, acc0, step, ctx):
    """run step(state, acc, item) -> [(state, acc)] over all items of w in order"""
    src, lo, hi = w.f
    if filtered(src):
        step0 = step

        def step(s, a, x):
            return [(s, a)] if x is SKIP else step0(s, a, x)
    if src.tag == "s:mut":
        r = src.f[0]
        v = eng.read(st, r)
        w2 = to_iter(eng, st, v)
        eng.write(st, r, iter_update(v, w2.f[2], w2.f[2]))
        return drive(eng, st, w2, acc0, step, ctx)
    if not entails(st.pc, le(lo, hi)):
        hi = mk_max(lo, hi)
    n = (hi - lo).const()
    if n is not None and n <= 300:
        states = [(st, acc0)]
        for j in range(int(n)):
            nxt = []
            for s, a in states:
                for s2, x in elem(eng, s, src, lo + j, ctx):
                    nxt += step(s2, a, x)
            states = nxt
            if len(states) > 64:
                raise Unsupported("too many paths in an iterator consumer")
        return states
    st = st.fork()
    ci = eng.alloc(st, lo).cell
    ca = eng.alloc(st, acc0).cell

    def iterate(s):
        out = []
        s = s.fork()
        i = s.cells[ci]
        for truth, s1 in eng.split(s, lt(i, hi)):
            if not truth:
                out.append(("exit", None, s1))
                continue
            s1 = s1.fork()
            s1.cells[ci] = i + 1
            for s2, x in elem(eng, s1, src, i, ctx):
                for s3, a in step(s2, s2.cells[ca], x):
                    s3 = s3.fork()
                    s3.cells[ca] = a
                    out.append(("back", None, s3))
        return out

    mark = len(eng.obs)
    res = eng.summarise(st, iterate)
    out = []
    for _, _, s in res:
        a = s.cells[ca]
        s.cells.pop(ca, None)
        s.cells.pop(ci, None)
        out.append((s, a))
    return out


# functions without axioms: equal arguments give equal results; evaluated numerically in refutations
OPAQUE1 = ("asin", "acos", "atan", "sinh", "cosh", "tanh", "exp_m1", "ln_1p", "log2", "log10", "cbrt", "floor", "ceil", "round",
           "round_ties_even", "trunc", "exp2", "fract")


def floaty(eng, ctx):
    return "f64" in eng.tys(ctx.get("dty")) if ctx.get("dty") is not None else True


def add_step(eng, ctx):
    isf = floaty(eng, ctx)

    def step(s, a, x):
        while isinstance(x, Ref):
            x = eng.read(s, x)
        if not isinstance(x, P):
            raise Unsupported("sum of %s" % type(x).__name__)
        v = a + x
        if not isf:
            rng = INT(eng, ctx)
            eng.oblige(s, le(v, rng), "overflow", "sum does not overflow", ctx.get("line"))
        return [(s, v)]
    return step


def INT(eng, ctx):
    from sym import INT_RANGE
    r = INT_RANGE.get(eng.tys(ctx.get("dty")))
    if r is None:
        raise Unsupported("integer sum type")
    return r[1]


def consume(eng, st, name, args, ctx):
    w = to_iter(eng, st, args[0])
    line = ctx.get("line")
    if eng.rounding is True and name in ("sum", "product"):
        raise Unsupported("rounding of a %s" % name)
    if name == "sum":
        return drive(eng, st, w, ZERO, add_step(eng, ctx), ctx)
    if name == "product":
        def step(s, a, x):
            while isinstance(x, Ref):
                x = eng.read(s, x)
            v = a * x
            if not isf:
                eng.oblige(s, le(v, INT(eng, ctx)), "overflow", "product does not overflow", line)
            return [(s, v)]
        isf = floaty(eng, ctx)
        return drive(eng, st, w, ONE, step, ctx)
    if name in ("fold", "rfold"):
        if name == "rfold":
            w = adapt(eng, st, "rev", [w], ctx)
        f = callee(eng, st, args[2])
        return drive(eng, st, w, args[1], lambda s, a, x: eng.call_value(s, f, [a, x], ctx), ctx)
    if name == "for_each":
        f = callee(eng, st, args[1])
        return drive(eng, st, w, UNIT, lambda s, a, x: [(s2, UNIT) for s2, _ in eng.call_value(s, f, [x], ctx)], ctx)
    if name == "collect":
        t = eng.tys(ctx.get("dty")) if ctx.get("dty") is not None else ""
        if not (t.startswith(("alloc::vec::Vec", "std::vec::Vec", "Vec<", "alloc::boxed::Box<[", "std::boxed::Box<[", "Box<["))):
            raise Unsupported("collect into %s" % t)
        if w.f[0].tag == "s:own" and w.f[1].is_zero() and w.f[2] == w.f[0].f[0].dims[0]:
            return [(st, w.f[0].f[0])]
        return drive(eng, st, w, mklist([]), lambda s, a, x: [(s, a.push(x))], ctx)
    if name == "unzip":
        return drive(eng, st, w, tup(mklist([]), mklist([])),
                     lambda s, a, x: [(s, tup(a.f[0].push(x.f[0]), a.f[1].push(x.f[1])))], ctx)
    if filtered(w.f[0]) and name in ("len", "size_hint", "last"):
        raise Unsupported("%s of a filtered iterator" % name)
    if name == "count" and (filtered(w.f[0]) or not pure(w.f[0])):
        return drive(eng, st, w, ZERO, lambda s, a, x: [(s, a + 1)], ctx)
    if name in ("count", "len"):
        return [(st, w.f[2] - w.f[1])]
    if name == "size_hint":
        n = w.f[2] - w.f[1]
        return [(st, tup(n, some(n)))]
    if name == "last":
        c = eng.alloc(st, w)
        return pull(eng, st, c, ctx, back=True)
    if name in ("reduce_with",):
        raise Unsupported(name)
    if name == "reduce" and len(args) == 3:      # rayon: identity, op
        idf, f = callee(eng, st, args[1]), callee(eng, st, args[2])
        out = []
        for s, a0 in eng.call_value(st, idf, [], ctx):
            par_reduction(eng, s, f, a0, ctx)
            out += drive(eng, s, w, a0, lambda s2, a, x: eng.call_value(s2, f, [a, x], ctx), ctx)
        return out
    raise Unsupported("iterator method %s" % name)


def scalars(v):
    if isinstance(v, P):
        return [v]
    if isinstance(v, Agg):
        return [x for y in v.f for x in scalars(y)]
    raise Unsupported("reduce of %s" % type(v).__name__)


def par_reduction(eng, st, f, a0, ctx):
    """rayon combines the items in any grouping and may use the identity any number of times: the result is that of the
    sequential fold when the identity is neutral and the operation associative (over the reals)"""
    scalars(a0)
    any_ = lambda: vmap(a0, lambda p: A(fresh("v", "I" if is_int(p) else "R")))
    one = lambda s, *xs: eng.call_value(s, f, list(xs), ctx)
    same = lambda u, v: conj(*[eq(x, y) for x, y in zip(scalars(u), scalars(v))])
    x, y, z = any_(), any_(), any_()
    for u, v in ((a0, x), (x, a0)):
        for s, r in one(st.fork(), u, v):
            eng.oblige(s, same(r, x), "pre", "rayon reduce: the identity is neutral", ctx.get("line"))
    for s, r in one(st.fork(), x, y):
        for s1, l in one(s, r, z):
            for s2, q in one(s1, y, z):
                for s3, m in one(s2, x, q):
                    eng.oblige(s3, same(l, m), "pre", "rayon reduce: the operation is associative", ctx.get("line"))


CONSUMERS = {"sum", "product", "fold", "rfold", "for_each", "collect", "unzip", "count", "len", "size_hint", "last", "reduce"}


# ---------------------------------------------------------------- numbers
def rd(eng, st, v):
    while isinstance(v, Ref):
        v = eng.read(st, v)
    return v


def cmp3(eng, st, a, b):
    """three-way comparison: [(state, Ordering)]"""
    out = []
    for truth, s in eng.split(st, eng.compare(st, "Lt", a, b)):
        if truth:
            out.append((s, LESS))
        else:
            for t2, s2 in eng.split(s, eng.compare(s, "Eq", a, b)):
                out.append((s2, EQUAL if t2 else GREATER))
    return out


EXACT_FN = {"abs", "fabs", "min", "fmin", "minimum", "max", "fmax", "maximum", "clamp", "signum", "floor", "ceil", "trunc", "round",
            "copysign", "from", "into", "total_cmp"}


def f64_fn(eng, st, name, a, ctx):
    line = ctx.get("line")
    a = [rd(eng, st, x) for x in a]
    if any(isinstance(x, Opq) for x in a):
        raise Unsupported("%s of a special float" % name)
    x = a[0] if a else None
    ob = lambda c, t: eng.oblige(st, c, "defined", t, line)
    one = lambda v: [(st, v)]
    if name in ("sin", "cos"):
        return one((mk_sin if name == "sin" else mk_cos)(x))
    if name == "sin_cos" or name == "sincos":
        return one(tup(mk_sin(x), mk_cos(x)))
    if name == "tan":
        c = mk_cos(x)
        return one(mk_sin(x) / c)
    if name == "sqrt":
        ob(le(0, x), "sqrt of a nonnegative value: %s" % show(x)[:100])
        return one(mk_sqrt(x))
    if name in ("powf", "pow"):
        ob(disj(lt(0, x), conj(eq0(x), lt(0, a[1]))) if not (a[1].const() is not None and a[1].const().denominator == 1)
           else (T_.T if a[1].const() >= 0 else neg(eq0(x))), "powf base is positive: %s" % show(x)[:100])
        return one(mk_pow(x, a[1]))
    if name == "powi":
        c = a[1].const()
        if c is None:
            return one(mk_pow(x, a[1]))
        if c < 0:
            ob(neg(eq0(x)), "powi base is not zero")
        return one(x ** int(c))
    if name == "exp":
        return one(mk_exp(x))
    if name == "ln" or name == "log":
        if len(a) == 2:
            return one(app("ln", x) / app("ln", a[1]))
        ob(lt(0, x), "logarithm of a positive value")
        return one(app("ln", x))
    if name in ("abs", "fabs"):
        if entails(st.pc, le(0, x)):
            return one(x)
        return one(mk_abs(x))
    if name == "mul_add" or name == "fma":
        return one(x * a[1] + a[2])
    if name == "recip":
        return one(eng.fdiv(st, ONE, x, line))
    if name == "powi":
        return one(mk_pow(x, a[1]))
    if name in ("min", "fmin", "minimum"):
        return one(mk_min(x, a[1]))
    if name in ("max", "fmax", "maximum"):
        return one(mk_max(x, a[1]))
    if name == "clamp":
        eng.oblige(st, eng.compare(st, "Le", a[1], a[2]), "panic", "clamp bounds are ordered", line)
        return one(mk_min(mk_max(x, a[1]), a[2]))
    if name in ("is_finite", "is_nan", "is_infinite", "is_sign_negative", "is_sign_positive"):
        c = {"is_finite": T_.T, "is_nan": T_.F, "is_infinite": T_.F}.get(name)
        if c is None:
            c = lt(x, 0) if name == "is_sign_negative" else le(0, x)
        return one(c if x.const() is not None else eng.blinded(st, name, c, x) if not is_int(x) else c)
    if name == "total_cmp":
        return cmp3(eng, st, x, a[1])
    if name == "signum":
        return one(mk_ite(lt(x, 0), K(-1), ONE))
    if name == "to_radians":
        return one(x * PI / 180)
    if name in ("tgamma",):
        return one(mk_gamma(x))
    if name in OPAQUE1 and len(a) == 1:
        if name in ("asin", "acos"):
            ob(le(mk_abs(x), 1), "%s of a value in [-1, 1]" % name)
        if name in ("log2", "log10"):
            ob(lt(0, x), "logarithm of a positive value")
        if name == "ln_1p":
            ob(lt(-1, x), "logarithm of a positive value")
        return one(app(name, x))
    if name in ("hypot", "atan2"):
        return one(app(name, x, a[1]))
    if name in ("acos", "asin", "atan", "sinh", "cosh", "tanh", "cbrt", "hypot", "atan2", "exp_m1", "ln_1p", "log10",
                "log2", "exp2", "floor", "ceil", "round", "trunc", "rem_euclid", "div_euclid", "copysign"):
        if name in ("floor", "ceil", "trunc", "round"):
            if is_int(x):
                return one(x)
            return one(app(name, x, sort="I"))
        return one(app(name, *a))
    raise Unsupported("f64::%s" % name)


def int_fn(eng, st, ty, name, a, ctx):
    from sym import INT_RANGE
    line = ctx.get("line")
    a = [rd(eng, st, x) for x in a]
    lo, hi = INT_RANGE[ty]
    x = a[0]
    y = a[1] if len(a) > 1 else None
    one = lambda v: [(st, v)]

    def ovf(v, what):
        eng.oblige(st, conj(le(lo, v), le(v, hi)), "overflow", "%s does not overflow" % what, line)
        return one(v)
    if name == "pow":
        c = y.const()
        if c is None:
            v = mk_pow(x, y)
            raise Unsupported("integer power")
        return ovf(x ** int(c), "pow")
    if name == "abs_diff":
        return one(mk_ite(lt(x, y), y - x, x - y))
    if name == "div_ceil":
        eng.oblige(st, neg(eq0(y)), "division", "divisor is not zero", line)
        return one(mk_idiv(x + y - 1, y))
    if name in ("rem_euclid", "div_euclid") and lo == 0:
        eng.oblige(st, neg(eq0(y)), "division", "divisor is not zero", line)
        return one(mk_mod(x, y) if name == "rem_euclid" else mk_idiv(x, y))
    if name == "is_multiple_of" and lo == 0:
        return one(eq0(mk_mod(x, y)))
    if name == "is_power_of_two":
        raise Unsupported(name)
    if name in ("midpoint",):
        return one(mk_idiv(x + y, K(2)))
    op = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "neg": lambda: -x,
          "div": lambda: mk_idiv(x, y), "rem": lambda: mk_mod(x, y)}
    for pre in ("checked_", "saturating_", "wrapping_", "overflowing_"):
        if name.startswith(pre) and name[len(pre):] in op:
            k = name[len(pre):]
            if k in ("div", "rem"):
                if pre != "checked_" or lo < 0:
                    raise Unsupported(name)
                out = []
                for truth, s in eng.split(st, eq0(y)):
                    out.append((s, NONE if truth else some(op[k]())))
                return out
            v = op[k]()
            inr = conj(le(lo, v), le(v, hi))
            if pre == "checked_":
                return [(s, some(v) if truth else NONE) for truth, s in eng.split(st, inr)]
            if pre == "saturating_":
                r = []
                for truth, s in eng.split(st, inr):
                    if truth:
                        r.append((s, v))
                    else:
                        for t2, s2 in eng.split(s, lt(v, lo)):
                            r.append((s2, K(lo) if t2 else K(hi)))
                return r
            if entails(st.pc, inr):
                return one(v if pre == "wrapping_" else tup(v, T_.F))
            w = mk_ite(inr, v, app(("wrap", ty), v, sort="I"))
            return one(w if pre == "wrapping_" else tup(w, neg(inr)))
    if name in ("unsigned_abs", "abs"):
        if name == "abs":
            eng.oblige(st, lt(lo, x), "overflow", "abs does not overflow", line)
        return one(mk_ite(lt(x, 0), -x, x))
    if name in ("min", "max", "clamp"):
        return minmax(eng, st, name, a)
    raise Unsupported("%s::%s" % (ty, name))


def minmax(eng, st, name, a):
    if name == "min":
        return [(st, mk_min(a[0], a[1]))]
    if name == "max":
        return [(st, mk_max(a[0], a[1]))]
    return [(st, mk_min(mk_max(a[0], a[1]), a[2]))]


INTS = {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"}


# ---------------------------------------------------------------- equality
def veq(eng, st, a, b):
    a, b = rd(eng, st, a), rd(eng, st, b)
    if isinstance(a, (P, C)) and isinstance(b, (P, C)) and type(a) is type(b):
        return eng.compare(st, "Eq", a, b)
    if isinstance(a, Agg) and isinstance(b, Agg) and a.tag == b.tag:
        if a.var != b.var or len(a.f) != len(b.f):
            return T_.F
        return conj(*[veq(eng, st, x, y) for x, y in zip(a.f, b.f)])
    if a == b:
        return T_.T
    raise Unsupported("equality of %s" % type(a).__name__)


def derived(eng, st, b, args, ctx):
    name = b.get("name") or b["path"].rsplit("::", 1)[-1]
    if name == "clone":
        return [(st, rd1(eng, st, args[0]))]
    if name == "eq":
        try:
            return [(st, veq(eng, st, args[0], args[1]))]
        except Unsupported:
            return None
    return None


def rd1(eng, st, v):
    return eng.read(st, v) if isinstance(v, Ref) else v


# ---------------------------------------------------------------- conversions
def convert(eng, st, v, src, dst, ctx, fallible):
    """Into/From between src and dst (type strings)"""
    if not fallible:
        if src == dst:
            return [(st, v)]
    want = "try_from" if fallible else "from"
    for b in eng.d["bodies"]:
        if b.get("name") == want and b.get("body") and b["body"]["argc"] == 1:
            L = b["body"]["locals"]
            if eng.tys(L[1]) == src and eng.tys(L[0]) == dst:
                h = eng.contracts.get(b["path"])
                if h is not None:
                    eng.used_contracts.add(b["path"])
                    return h(eng, st, [v], ctx)
                eng.inlined.add(b["path"])
                return eng.run_body(st, b, [v])
    # into impls written directly
    for b in eng.d["bodies"]:
        if b.get("name") == ("try_into" if fallible else "into") and b.get("body") and b["body"]["argc"] == 1:
            L = b["body"]["locals"]
            if eng.tys(L[1]) == src and eng.tys(L[0]) == dst:
                eng.inlined.add(b["path"])
                return eng.run_body(st, b, [v])
    if isinstance(v, Agg) and v.tag == "nz" and not fallible:
        if "NonZero" in dst:
            return [(st, v)]
        return [(st, v.f[0])]
    if isinstance(v, P):
        from sym import INT_RANGE
        if not fallible and (dst in INT_RANGE or dst == "f64"):
            return [(st, v)]
        if fallible:
            m = re.search(r"Result<([a-z0-9]+),", dst)
            if m and m.group(1) in INT_RANGE:
                lo, hi = INT_RANGE[m.group(1)]
                return [(s, ok(v) if t else err(Opq("err", "TryFromInt")))
                        for t, s in eng.split(st, conj(le(lo, v), le(v, hi)))]
            if "NonZero" in dst:
                return [(s, ok(nz(v)) if t else err(Opq("err", "TryFromInt"))) for t, s in eng.split(st, neg(eq0(v)))]
    if isinstance(v, C) and not fallible:
        return [(st, mk_ite(v, ONE, ZERO))]
    if isinstance(v, Arr) and not fallible:
        return [(st, v)]
    raise Unsupported("conversion from %s to %s" % (src[:60], dst[:60]))


# ---------------------------------------------------------------- Option / Result
def optres(eng, st, name, a, ctx):
    v = a[0]
    byref = isinstance(v, Ref)
    vv = rd(eng, st, v) if byref else v
    if not isinstance(vv, Agg) or vv.tag not in ("core::option::Option", "core::result::Result"):
        raise Unsupported("%s on %s" % (name, type(vv).__name__))
    isopt = vv.tag == "core::option::Option"
    good = vv.var == (1 if isopt else 0)
    x = vv.f[0] if vv.f else None
    call = lambda f, *xs: eng.call_value(st, f, list(xs), ctx)
    one = lambda r: [(st, r)]
    wrap = some if isopt else ok
    if name in ("is_some", "is_ok"):
        return one(T_.T if good else T_.F)
    if name in ("is_none", "is_err"):
        return one(T_.F if good else T_.T)
    if name in ("unwrap", "expect", "unwrap_or_else", "unwrap_or", "unwrap_or_default", "unwrap_unchecked"):
        if good:
            return one(x)
        if name == "unwrap_or":
            return one(a[1])
        if name == "unwrap_or_else":
            return call(a[1]) if isopt else call(a[1], x)
        eng.oblige(st, T_.F, "panic", "unwrap of a failure value", ctx.get("line"))
        return []
    if name in ("unwrap_err", "expect_err"):
        if not good:
            return one(x)
        eng.oblige(st, T_.F, "panic", "unwrap_err of a success value", ctx.get("line"))
        return []
    if name == "map":
        return [(s, wrap(r)) for s, r in call(a[1], x)] if good else one(vv)
    if name == "map_err":
        return one(vv) if good else [(s, err(r)) for s, r in call(a[1], x)]
    if name == "and_then":
        return call(a[1], x) if good else one(vv)
    if name == "ok_or":
        return one(ok(x) if good else err(a[1]))
    if name == "ok_or_else":
        return one(ok(x)) if good else [(s, err(r)) for s, r in call(a[1])]
    if name == "ok":
        return one(some(x) if good else NONE)
    if name == "err":
        return one(NONE if good else some(x))
    if name == "map_or":
        return call(a[2], x) if good else one(a[1])
    if name == "map_or_else":
        return call(a[2], x) if good else (call(a[1]) if isopt else call(a[1], x))
    if name == "or":
        return one(vv if good else a[1])
    if name == "or_else":
        return one(vv) if good else (call(a[1]) if isopt else call(a[1], x))
    if name == "filter":
        if not good:
            return one(vv)
        c = eng.alloc(st, x)
        out = []
        for s, r in call(a[1], c):
            out += [(s2, vv if t else NONE) for t, s2 in eng.split(s, r)]
        return out
    if name in ("as_ref", "as_mut", "as_deref"):
        r = v if byref else eng.alloc(st, v)
        return one(Agg(vv.tag, (r.ext(("f", 0)),), vv.var) if good or vv.f else vv)
    if name in ("copied", "cloned"):
        return one(wrap(rd1(eng, st, x)) if good else vv)
    if name == "is_some_and" or name == "is_ok_and":
        return call(a[1], x) if good else one(T_.F)
    if name == "take":
        eng.write(st, v, NONE)
        return one(vv)
    if name == "zip":
        b = a[1]
        return one(some(tup(x, b.f[0])) if good and b.var == 1 else NONE)
    raise Unsupported("%s::%s" % ("Option" if isopt else "Result", name))


# ---------------------------------------------------------------- slices and vectors
def seq(eng, st, name, a, ctx):
    line = ctx.get("line")
    v = a[0]
    one = lambda r: [(st, r)]
    if name in ("new", "with_capacity") :
        return one(mklist([]))
    if isinstance(v, Arr):
        if name in ("into_boxed_slice", "into_vec", "into", "to_vec"):
            return one(v)
        if name in ("into_iter",):
            return one(to_iter(eng, st, v))
        raise Unsupported("%s by value" % name)
    ref = v
    while isinstance(ref, Ref):
        if ref.path and ref.path[-1][0] == "r":
            break
        x = eng.read(st, ref)
        if isinstance(x, Ref):
            ref = x
            continue
        break
    if not isinstance(ref, Ref):
        raise Unsupported("%s on %s" % (name, type(v).__name__))
    n = eng.alen(st, ref)
    if name == "len":
        return one(n)
    if name == "is_empty":
        return one(eq0(n))
    if name in ("iter", "iter_mut"):
        return one(to_iter(eng, st, ref))
    if name in ("as_slice", "as_mut_slice", "deref", "deref_mut", "as_ref", "as_mut", "borrow"):
        return one(ref)
    if name in ("first", "last", "first_mut", "last_mut"):
        out = []
        for t, s in eng.split(st, lt(0, n)):
            out.append((s, some(ref.ext(("i", ZERO if name.startswith("first") else n - 1))) if t else NONE))
        return out
    if name in ("get", "get_mut"):
        i = a[1]
        if not isinstance(i, P):
            raise Unsupported("get with a range")
        return [(s, some(ref.ext(("i", i))) if t else NONE) for t, s in eng.split(st, lt(i, n))]
    if name in ("get_unchecked", "get_unchecked_mut"):
        eng.oblige(st, conj(le(0, a[1]), lt(a[1], n)), "bounds", "index in bounds", line)
        return one(ref.ext(("i", a[1])))
    if name in ("index", "index_mut"):
        return index(eng, st, ref, n, a[1], line)
    if name in ("split_at", "split_at_mut"):
        m = a[1]
        eng.oblige(st, le(m, n), "bounds", "split_at within bounds", line)
        return one(tup(ref.ext(("r", ZERO, m)), ref.ext(("r", m, n))))
    if name in ("split_first", "split_last"):
        out = []
        for t, s in eng.split(st, lt(0, n)):
            if not t:
                out.append((s, NONE))
            elif name == "split_first":
                out.append((s, some(tup(ref.ext(("i", ZERO)), ref.ext(("r", ONE, n))))))
            else:
                out.append((s, some(tup(ref.ext(("i", n - 1)), ref.ext(("r", ZERO, n - 1))))))
        return out
    if name == "windows":
        w = a[1]
        eng.oblige(st, lt(0, w), "panic", "window size is not zero", line)
        m = n - w + 1
        hi = m if entails(st.pc, le(0, m)) else mk_max(ZERO, m)
        return one(it(Agg("s:win", (ref, w, ONE)), ZERO, hi))
    if name in ("chunks_exact", "array_chunks"):
        w = a[1]
        eng.oblige(st, lt(0, w), "panic", "chunk size is not zero", line)
        return one(it(Agg("s:win", (ref, w, w)), ZERO, mk_idiv(n, w)))
    if name in ("to_vec", "into_vec", "clone", "to_owned"):
        return one(eng.read(st, ref))
    arr = eng.read(st, ref)
    if name == "push":
        eng.write(st, ref, arr.push(a[1]))
        return one(UNIT)
    if name == "pop":
        c = n.const()
        if c is None or arr.base[0] != "lst" or arr.ops:
            raise Unsupported("pop")
        if c == 0:
            return one(NONE)
        eng.write(st, ref, mklist(arr.base[1][:-1]))
        return one(some(arr.base[1][-1]))
    if name == "swap":
        for i in (a[1], a[2]):
            eng.oblige(st, lt(i, n), "bounds", "swap index in bounds", line)
        x, y = arr.get(a[1]), arr.get(a[2])
        eng.write(st, ref, arr.store((a[1],), (), y).store((a[2],), (), x))
        return one(UNIT)
    if name == "reverse":
        j = fresh_ix(0)
        eng.write(st, ref, comp((n,), (j,), arr.get(n - 1 - A(j))))
        return one(UNIT)
    if name == "fill":
        j = fresh_ix(0)
        eng.write(st, ref, comp((n,), (j,), a[1]))
        return one(UNIT)
    if name in ("reserve", "shrink_to_fit", "reserve_exact"):
        return one(UNIT)
    if name == "extend":
        w = to_iter(eng, st, a[1])

        def step(s, acc, x):
            return [(s, acc.push(x))]
        out = []
        for s, r in drive(eng, st, w, arr, step, ctx):
            eng.write(s, ref, r)
            out.append((s, UNIT))
        return out
    if name in ("sort_unstable_by", "sort_by"):
        return sort_by(eng, st, ref, arr, n, a[1], ctx, "cmp")
    if name in ("sort_unstable_by_key", "sort_by_key", "sort_by_cached_key"):
        raise Unsupported(name)
    if name == "truncate":
        c = n.const()
        raise Unsupported("truncate")
    raise Unsupported("slice method %s" % name)


def index(eng, st, ref, n, i, line):
    if isinstance(i, P):
        eng.oblige(st, conj(le(0, i), lt(i, n)), "bounds", "index in bounds", line)
        return [(st, ref.ext(("i", i)))]
    if isinstance(i, Agg):
        t = i.tag.split("::")[-1]
        if t == "Range":
            lo, hi = i.f
        elif t == "RangeFrom":
            lo, hi = i.f[0], n
        elif t == "RangeTo":
            lo, hi = ZERO, i.f[0]
        elif t == "RangeFull":
            lo, hi = ZERO, n
        elif t == "rinc":
            lo, hi = i.f[0], i.f[1] + 1
        else:
            raise Unsupported("index by %s" % i.tag)
        eng.oblige(st, conj(le(0, lo), le(lo, hi), le(hi, n)), "bounds", "slice range in bounds", line)
        return [(st, ref.ext(("r", lo, hi)))]
    raise Unsupported("index")


def sort_by(eng, st, ref, arr, n, f, ctx, kind):
    """the slice becomes the ascending permutation by field 0; the comparator must be exactly
    the ascending order on that field"""
    tmpl = arr.get(A(fresh("e", "I")))
    # (computed) elements: not variables, so that in blind mode their comparisons are unknown
    e1 = vtemplate(tmpl, lambda l, p: A(fresh("x", leaf_sort(l))) if not eng.blind else app("sorted", A(fresh("x")), sort=leaf_sort(l)))
    e2 = vtemplate(tmpl, lambda l, p: A(fresh("y", leaf_sort(l))) if not eng.blind else app("sorted", A(fresh("y")), sort=leaf_sort(l)))
    f = callee(eng, st, f)
    s0 = st.fork()
    c1, c2 = eng.alloc(s0, e1), eng.alloc(s0, e2)
    k1 = e1.f[0] if isinstance(e1, Agg) else e1
    k2 = e2.f[0] if isinstance(e2, Agg) else e2
    desc = asc = True
    for s, r in eng.call_value(s0, f, [c1, c2], ctx):
        if not isinstance(r, Agg):
            raise Unsupported("sort comparator")
        want = {0: lt(k1, k2), 1: eq(k1, k2), 2: lt(k2, k1)}[r.var]
        wantd = {0: lt(k2, k1), 1: eq(k1, k2), 2: lt(k1, k2)}[r.var]
        asc = asc and entails(s.pc, want)
        desc = desc and entails(s.pc, wantd)
    if not asc and not desc and not eng.blind:
        raise Unsupported("sort comparator is not the order of the first field")
    if eng.blind:
        j = fresh_ix(0)
        eng.write(st, ref, comp((n,), (j,), arr.get(app("permuted", n, A(j), sort="I"))))
        return [(st, UNIT)]
    # the key sequence identifies the permutation
    probe = arr.get(A(fresh("p", "I")))
    key = probe.f[0] if isinstance(probe, Agg) else probe
    y = bv(max(key.lvl, n.lvl) + 50)
    kb = arr.get(A(y))
    kb = kb.f[0] if isinstance(kb, Agg) else kb
    kb = simp(kb, list(st.pc) + [le(0, A(y)), lt(A(y), n)])
    j = fresh_ix(0)
    pos = A(j) if asc else n - 1 - A(j)
    sg = app("sigma", n, kb, A(y), pos, sort="I")
    eng.write(st, ref, comp((n,), (j,), arr.get(sg)))
    return [(st, UNIT)]


# ---------------------------------------------------------------- nalgebra
def matrix(eng, st, name, a, ctx):
    line = ctx.get("line")
    one = lambda r: [(st, r)]
    if name in ("zeros", "zeros_generic"):
        i, j = fresh_ix(0), fresh_ix(1)
        if len(a) == 1:
            return one(comp((a[0],), (i,), ZERO))
        return one(comp((a[0], a[1]), (i, j), ZERO))
    if name == "from_fn" and len(a) == 3:
        i, j = fresh_ix(0), fresh_ix(1)
        f = callee(eng, st, a[2])
        s0 = st.fork(le(0, A(i)), lt(A(i), a[0]), le(0, A(j)), lt(A(j), a[1]))
        if not feasible(s0.pc):
            return one(comp((a[0], a[1]), (i, j), ZERO))
        rs = eng.call_value(s0, f, [A(i), A(j)], ctx)
        v = None
        for s, x in rs:
            c = conj(*[q for q in s.pc if q not in s0.pc])
            v = x if v is None else vite(c, x, v)
        return one(comp((a[0], a[1]), (i, j), v))
    v = a[0]
    m = rd(eng, st, v)
    if isinstance(m, Agg) and m.tag in ("matrow", "matcol"):
        if name == "iter":
            return one(mat_iter(eng, st, m))
        if name in ("index",) and isinstance(a[1], P):
            arr = eng.read(st, m.f[0])
            n = arr.dims[1] if m.tag == "matrow" else arr.dims[0]
            eng.oblige(st, lt(a[1], n), "bounds", "matrix index in bounds", line)
            ix = (m.f[1], a[1]) if m.tag == "matrow" else (a[1], m.f[1])
            return one(m.f[0].ext(("m",) + ix))
        if name in ("len", "ncols", "nrows"):
            arr = eng.read(st, m.f[0])
            return one(arr.dims[1] if m.tag == "matrow" else arr.dims[0])
        raise Unsupported("matrix view %s" % name)
    if not isinstance(m, Arr):
        raise Unsupported("matrix %s" % name)
    ref = v
    while isinstance(ref, Ref) and not isinstance(eng.read(st, ref), Arr):
        ref = eng.read(st, ref)
    if name in ("index", "index_mut", "get_unchecked", "get_unchecked_mut"):
        ix = a[1]
        if isinstance(ix, P) and len(m.dims) == 1:
            eng.oblige(st, conj(le(0, ix), lt(ix, m.dims[0])), "bounds", "vector index in bounds", line)
            return one(ref.ext(("i", ix)))
        if isinstance(ix, Agg) and ix.tag == "tuple" and len(m.dims) == 2:
            r, c = ix.f
            eng.oblige(st, conj(le(0, r), lt(r, m.dims[0]), le(0, c), lt(c, m.dims[1])), "bounds",
                       "matrix index in bounds", line)
            return one(ref.ext(("m", r, c)))
        raise Unsupported("matrix index")
    if name in ("nrows", "ncols", "len"):
        return one(m.dims[1] if name == "ncols" else m.dims[0])
    if name == "row":
        eng.oblige(st, lt(a[1], m.dims[0]), "bounds", "matrix row in bounds", line)
        return one(Agg("matrow", (ref, a[1])))
    if name == "column":
        eng.oblige(st, lt(a[1], m.dims[1]), "bounds", "matrix column in bounds", line)
        return one(Agg("matcol", (ref, a[1])))
    if name in ("iter",) and len(m.dims) == 1:
        return one(to_iter(eng, st, ref))
    if name == "as_slice" and len(m.dims) == 1:
        return one(ref)
    if name in ("symmetric_eigen", "symmetric_eigenvalues"):
        ev, vec = eigen(eng, st, m)
        if name == "symmetric_eigenvalues":
            return one(ev)
        return one(Agg("nalgebra::SymmetricEigen", (vec, ev)))
    raise Unsupported("matrix method %s" % name)


def eigen(eng, st, m):
    """symmetric_eigen reads the lower triangle; only tridiagonal matrices are supported"""
    if len(m.dims) != 2:
        raise Unsupported("eigen of a vector")
    n = m.dims[0]
    eng.oblige(st, eq(m.dims[0], m.dims[1]), "panic", "matrix is square", None)
    r, c = A(fresh("r", "I")), A(fresh("c", "I"))
    pc = list(st.pc) + [le(0, c), lt(c + 1, r), lt(r, n)]
    if feasible(pc):
        e = m.get(r, c)
        if prove_zero(e, pc) is None:
            raise Unsupported("matrix is not tridiagonal")
    t = A(fresh("t", "I"))
    lv = max(m.get(t, t).lvl, m.get(t + 1, t).lvl, n.lvl) + 60
    y = A(bv(lv))
    pd = list(st.pc) + [le(0, y), lt(y, n)]
    D = simp(m.get(y, y), pd)
    po = list(st.pc) + [le(0, y), lt(y + 1, n)]
    O = simp(m.get(y + 1, y), po) if feasible(po) else ZERO
    O2 = simp(O * O, po) if feasible(po) else ZERO
    i, j, k = fresh_ix(0), fresh_ix(0), fresh_ix(1)
    ev = comp((n,), (i,), app("eigval", n, D, O2, y, A(i)))
    vec = comp((n, n), (j, k), app("eigvec", n, D, O2, O, y, A(j), A(k)))
    return ev, vec


# ---------------------------------------------------------------- dispatch
def arith(eng, st, name, a, ctx):
    inplace = name.endswith("_assign")
    op = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "neg": "Neg"}.get(
        name.replace("_assign", ""))
    if op is None:
        raise Unsupported("operator %s" % name)
    x = rd(eng, st, a[0])
    t = None
    for i in ctx.get("aty") or []:
        s = eng.tys(i).replace("&mut ", "").replace("&", "").strip()
        s = re.sub(r"'[a-z_0-9{}]+ ", "", s)
        if s == "f64" or s in INTS:
            t = s
            break
    if t is None:
        t = "f64" if isinstance(x, P) and not is_int(x) else None
    if t is None:
        raise Unsupported("operator %s on an unknown type" % name)
    td = {"k": "float", "s": "f64"} if t == "f64" else {"k": "int" if t[0] == "i" else "uint", "s": t}
    if op == "Neg":
        return [(st, -x)]
    y = rd(eng, st, a[1])
    v = eng.binop(st, op, x, y, td, ctx.get("line"))
    if inplace:
        eng.write(st, a[0], v)
        return [(st, UNIT)]
    return [(st, v)]


def call(eng, st, fn, args, ctx):
    path = fn.get("path") or ""
    p = norm(path)
    name = fn.get("name") or p.rsplit("::", 1)[-1]
    eng.trusted.add(p)
    seg = p.split("::")
    a = args
    one = lambda r: [(st, r)]

    if p.startswith("core::ops::function::") and name in ("call", "call_mut", "call_once"):
        xs = list(a[1].f) if isinstance(a[1], Agg) and a[1].tag == "tuple" else [a[1]]
        return eng.call_value(st, a[0], xs, ctx)
    if p.startswith(("core::panicking", "core::option::expect_failed", "core::option::unwrap_failed",
                     "core::result::unwrap_failed", "std::rt::begin_panic", "core::panic", "std::process",
                     "core::slice::index::slice", "std::rt::panic", "alloc::raw_vec::capacity_overflow")):
        return one(UNIT)
    if p.startswith(("core::f64::f64::", "std::f64::f64::", "libm::", "core::f64::", "std::num::f64", "core::num::f64::",
                     "num_traits::", "std::f64::math", "core::f64::math")) or "::<impl f64>::" in path:
        rs = f64_fn(eng, st, name, a, ctx)
        if eng.rounding and name not in EXACT_FN:
            if name == "powi" and a[1].const() not in (2, 3):
                raise Unsupported("rounding of powi")
            k = "fl" if name in ("sqrt", "mul_add", "fma", "recip") else "fl1"
            rs = [(s, vmap(v, lambda q: eng.fl(q, k)) if isinstance(v, (P, Agg)) else v) for s, v in rs]
        return rs
    if len(seg) >= 3 and seg[-2] in INTS and seg[0] in ("core", "std"):
        return int_fn(eng, st, seg[-2], name, a, ctx)
    if "NonZero" in p:
        x = rd(eng, st, a[0])
        if name == "get":
            return one(x.f[0])
        if name == "new":
            return [(s, some(nz(x)) if t else NONE) for t, s in eng.split(st, neg(eq0(x)))]
        if name == "new_unchecked":
            eng.oblige(st, neg(eq0(x)), "panic", "NonZero value is not zero", ctx.get("line"))
            return one(nz(x))
        raise Unsupported("NonZero::%s" % name)
    if p.startswith("core::ops::arith::") or (p.startswith("core::ops::") and name in ("neg",)):
        return arith(eng, st, name, a, ctx)
    if p.startswith("core::ops::bit::") and name == "not":
        return one(neg(rd(eng, st, a[0])))
    if p.startswith("core::ops::range::RangeInclusive"):
        if name == "new":
            return one(Agg("rinc", (a[0], a[1])))
        v = rd(eng, st, a[0])
        if name in ("start", "end"):
            return one(eng.alloc(st, v.f[0 if name == "start" else 1]))
        if name == "contains":
            x = rd(eng, st, a[1])
            return one(conj(le(v.f[0], x), le(x, v.f[1])))
    if p.startswith("core::ops::range::Range") and name == "contains":
        v = rd(eng, st, a[0])
        x = rd(eng, st, a[1])
        return one(conj(le(v.f[0], x), lt(x, v.f[1])))
    if p.startswith("core::ops::range::Range") and name in ("is_empty",):
        v = rd(eng, st, a[0])
        return one(le(v.f[1], v.f[0]))
    # iterators
    itpath = p.startswith(("core::iter::", "rayon::iter::", "std::iter::", "core::ops::range::")) or \
        p.startswith(("alloc::vec::into_iter", "core::slice::iter", "core::array::iter", "rayon::"))
    if itpath or (fn.get("trait") or "").startswith(("core::iter", "rayon::iter")):
        if name in ("next", "next_back"):
            return pull(eng, st, a[0], ctx, back=name == "next_back")
        if name in ("nth", "nth_back"):
            return pull(eng, st, a[0], ctx, back=name == "nth_back", skip=a[1])
        if name in ("as_slice", "as_ref"):
            v = rd(eng, st, a[0])
            return one(iter_slice(eng, st, v))
        if name == "extend":
            return seq(eng, st, "extend", a, ctx)
        if name == "once" and "sources" in p:
            return one(it(Agg("s:own", (mklist([a[0]]),)), ZERO, ONE))
        if name == "from_iter":
            return consume(eng, st, "collect", a, ctx)
        if name in ADAPTORS:
            return one(adapt(eng, st, name, a, ctx))
        if name in CONSUMERS:
            if name in ("len", "size_hint"):
                v = rd(eng, st, a[0])
                return consume(eng, st, name, [v], ctx)
            return consume(eng, st, name, a, ctx)
        if name == "zip":
            return one(adapt(eng, st, "zip", a, ctx))
        raise Unsupported("iterator method %s" % p)
    if p.startswith("rayon_core::") or p.startswith("rayon::"):
        if name == "join":
            out = []
            for s, x in eng.call_value(st, callee(eng, st, a[0]), [], ctx):
                for s2, y in eng.call_value(s, callee(eng, s, a[1]), [], ctx):
                    out.append((s2, tup(x, y)))
            return out
        raise Unsupported(p)
    if p.startswith("core::convert::"):
        src = eng.tys(ctx["aty"][0]) if ctx.get("aty") else "?"
        dst = eng.tys(ctx.get("dty")) if ctx.get("dty") is not None else "?"
        if ctx.get("viaval"):
            # called through a function value: use the resolved generic arguments
            src, dst = generic_args(eng, fn, src, dst)
        if name in ("from", "into"):
            return convert(eng, st, a[0], src, dst, ctx, False)
        if name in ("try_from", "try_into"):
            return convert(eng, st, a[0], src, dst, ctx, True)
        if name in ("as_ref", "as_mut"):
            v = a[0]
            x = rd(eng, st, v)
            if isinstance(x, Agg) and x.tag == "iter":
                return one(iter_slice(eng, st, x))
            if isinstance(x, Arr):
                return seq(eng, st, name, a, ctx)
            return one(v)
    if p.startswith(("core::option::Option", "core::result::Result")):
        return optres(eng, st, name, a, ctx)
    if p.startswith("core::ops::try_trait"):
        if name == "branch":
            v = a[0]
            good = v.var == (1 if v.tag.endswith("Option") else 0)
            if good:
                return one(Agg("core::ops::control_flow::ControlFlow", (v.f[0],), 0))
            return one(Agg("core::ops::control_flow::ControlFlow", (v,), 1))
        if name == "from_residual":
            v = a[0]
            if v.tag.endswith("Result"):
                src = None
                dst = eng.tys(ctx.get("dty")) if ctx.get("dty") is not None else ""
                e = v.f[0]
                m1 = result_err(eng.tys(ctx["aty"][0])) if ctx.get("aty") else None
                m2 = result_err(dst)
                if m1 and m2 and m1 != m2:
                    return [(s, err(x)) for s, x in convert(eng, st, e, m1, m2, ctx, False)]
                return one(err(e))
            return one(NONE)
        if name == "from_output":
            t = eng.tys(ctx.get("dty"))
            return one(some(a[0]) if "Option" in t.split("<")[0] else ok(a[0]))
    if p.startswith("core::cmp::"):
        x, y = rd(eng, st, a[0]), rd(eng, st, a[1]) if len(a) > 1 else None
        if seg[2:3] == ["Ordering"] or (isinstance(x, Agg) and x.tag == "core::cmp::Ordering"):
            return ordering(eng, st, name, a, ctx)
        if name in ("eq", "ne"):
            c = veq(eng, st, x, y)
            return one(c if name == "eq" else neg(c))
        if name in ("lt", "le", "gt", "ge") and isinstance(x, P):
            return one(eng.compare(st, name.capitalize(), x, y))
        if name == "cmp":
            x, y = unnz(x), unnz(y)
            if isinstance(x, P):
                return cmp3(eng, st, x, y)
        if name == "partial_cmp" and isinstance(x, P):
            out = [(s, some(o)) for s, o in cmp3(eng, st, x, y)]
            if eng.blind and not (is_int(x) and is_int(y)) and (x.const() is None or y.const() is None):
                c = eng.blinded(st, "unordered", T_.F, x, y)
                out = [(s, o) for t, s1 in eng.split(st, c) for s, o in (
                    [(s1, NONE)] if t else [(s, some(o)) for s, o in cmp3(eng, s1, x, y)])]
            return out
        if name in ("min", "max") and isinstance(x, P):
            return minmax(eng, st, name, [x, y])
        if name == "clamp":
            return minmax(eng, st, name, [rd(eng, st, q) for q in a])
        raise Unsupported(p)
    if p.startswith(("core::clone::", "alloc::borrow::ToOwned")):
        return one(rd1(eng, st, a[0]))
    if p.startswith("core::default::"):
        t = eng.tys(ctx.get("dty"))
        if t == "f64" or t in INTS:
            return one(ZERO)
        if "Vec<" in t:
            return one(mklist([]))
        raise Unsupported("default of %s" % t)
    if p.startswith("nalgebra") or "nalgebra" in p:
        return matrix(eng, st, name, a, ctx)
    if p.startswith("core::ops::index::"):
        x = rd(eng, st, a[0]) if not (isinstance(a[0], Ref) and a[0].path and a[0].path[-1][0] == "r") else None
        if isinstance(x, Agg) and x.tag in ("matrow", "matcol"):
            return matrix(eng, st, name, a, ctx)
        if isinstance(x, Arr) and (len(x.dims) == 2 or (ctx.get("aty") and "nalgebra" in eng.tys(ctx["aty"][0]))):
            return matrix(eng, st, name, a, ctx)
        return seq(eng, st, name, a, ctx)
    if p.startswith(("core::ops::deref::", "core::borrow::")):
        return one(a[0])
    if p.startswith(("alloc::vec::Vec", "alloc::slice", "core::slice", "alloc::boxed", "core::array", "alloc::vec::",
                     "std::vec")):
        if p.startswith("alloc::boxed") and name in ("new", "into_inner", "from"):
            return one(a[0])
        # the expansion of vec![..]
        if name == "new_uninit":
            return one(Agg("MaybeUninit", (UNIT, Agg("ManuallyDrop", (UNDEF,)))))
        if name == "box_assume_init_into_vec_unsafe" and isinstance(a[0], Agg) and a[0].tag == "MaybeUninit":
            x = a[0].f[1].f[0]
            if x is UNDEF:
                raise Unsupported("uninitialised box")
            return one(x)
        if name == "from_elem" and isinstance(a[1], P):
            return one(comp((a[1],), (fresh_ix(0),), a[0]))
        return seq(eng, st, name, a, ctx)
    if p.startswith(("core::mem::", "std::mem::")):
        if name == "swap":
            x, y = eng.read(st, a[0]), eng.read(st, a[1])
            eng.write(st, a[0], y)
            eng.write(st, a[1], x)
            return one(UNIT)
        if name == "replace":
            x = eng.read(st, a[0])
            eng.write(st, a[0], a[1])
            return one(x)
        if name in ("drop", "forget"):
            return one(UNIT)
    if p.startswith(("core::hint::", "std::hint::")):
        if name in ("black_box", "must_use"):
            return one(a[0])
        if name == "assert_unchecked":
            eng.oblige(st, a[0], "unchecked", "assert_unchecked holds", ctx.get("line"))
            return one(UNIT)
    if p.startswith(("std::backtrace", "alloc::string", "alloc::fmt", "core::fmt", "std::string")):
        return one(Opq("str", p))
    if p.startswith("core::bool"):
        c = rd(eng, st, a[0])
        if name in ("then", "then_some"):
            out = []
            for t, s in eng.split(st, c):
                if not t:
                    out.append((s, NONE))
                elif name == "then_some":
                    out.append((s, some(a[1])))
                else:
                    out += [(s2, some(x)) for s2, x in eng.call_value(s, a[1], [], ctx)]
            return out
    raise Unsupported("no contract for %s" % p)


def unnz(x):
    return x.f[0] if isinstance(x, Agg) and x.tag == "nz" else x


def generic_args(eng, fn, src, dst):
    ss = [eng.tys(x) if isinstance(x, int) else None for x in fn.get("args") or []]
    if len(ss) == 2 and all(ss):
        if fn.get("name") in ("from", "try_from"):
            return ss[1], ss[0]
        return ss[0], ss[1]
    return src, dst


def result_err(s):
    """E of Result<T, E>"""
    i = s.find("Result<")
    if i < 0:
        return None
    depth, parts, cur = 0, [], ""
    for ch in s[i + 7:]:
        if ch in "<([":
            depth += 1
        elif ch in ">)]":
            if depth == 0:
                break
            depth -= 1
        if ch == "," and depth == 0:
            parts.append(cur)
            cur = ""
        else:
            cur += ch
    parts.append(cur)
    return parts[-1].strip() if len(parts) == 2 else None


def iter_slice(eng, st, v):
    """as_slice: the remaining items of a slice or vector iterator"""
    if is_local_newtype(eng, v):
        v = v.f[0]
    if not (isinstance(v, Agg) and v.tag == "iter"):
        raise Unsupported("as_slice")
    src, lo, hi = v.f
    if src.tag == "s:ref":
        return src.f[0].ext(("r", lo, hi))
    if src.tag == "s:own":
        return eng.alloc(st, src.f[0]).ext(("r", lo, hi))
    raise Unsupported("as_slice of %s" % src.tag)


def ordering(eng, st, name, a, ctx):
    x = rd(eng, st, a[0])
    one = lambda r: [(st, r)]
    m = {"is_lt": (0,), "is_le": (0, 1), "is_gt": (2,), "is_ge": (1, 2), "is_eq": (1,), "is_ne": (0, 2)}
    if name in m:
        return one(T_.T if x.var in m[name] else T_.F)
    if name == "reverse":
        return one((GREATER, EQUAL, LESS)[x.var])
    if name == "then":
        return one(a[1] if x.var == 1 else x)
    if name == "then_with":
        return eng.call_value(st, a[1], [], ctx) if x.var == 1 else one(x)
    if name in ("eq", "ne"):
        y = rd(eng, st, a[1])
        r = x.var == y.var
        return one(T_.T if r == (name == "eq") else T_.F)
    raise Unsupported("Ordering::%s" % name)
