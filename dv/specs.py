"""Contracts of the public functions: what each property demands, as obligations over the
results of the symbolic engine on the MIR of the current tree."""
from term import *
from logic import *
from val import *
import term as T_
from sym import *
import std

GAUSS = ["GaussLegendre", "GaussChebyshevFirstKind", "GaussChebyshevSecondKind", "GaussHermite", "GaussLaguerre",
         "GaussJacobi"]
BOUNDED = GAUSS[:3] + ["GaussJacobi"]
NC = ["Midpoint", "Trapezoid", "Simpson"]
MAXN = 2 ** 59          # a Vec<(f64, f64)> holds fewer elements than this
FIN = "gauss_quad::data_api::FiniteAboveNegOneF64"


def short(path):
    return path.split("<")[0].split("::")[-1]


def method(eng, struct, name, trait=None):
    """the body of struct's method"""
    for b in eng.d["bodies"]:
        if b.get("name") != name or b["kind"] == "Closure" or not b.get("impl_self") or not b.get("body"):
            continue
        if short(b["impl_self"]) != struct:
            continue
        t = b.get("impl_trait")
        if trait is None and t is None:
            return b
        if trait is not None and t is not None and t.split("<")[0].split("::")[-1] == trait:
            return b
    if trait is None:
        c = [b for b in eng.d["bodies"] if b.get("name") == name and b["kind"] != "Closure" and b.get("impl_self")
             and short(b["impl_self"]) == struct and b.get("body")]
        if len(c) == 1:
            return c[0]
    raise Unsupported("%s::%s not found" % (struct, name))


def adt(eng, struct):
    c = [(u, a) for u, a in eng.adts.items() if a.get("local") and a["path"].split("::")[-1] == struct]
    if len(c) != 1:
        raise Unsupported("type %s not found" % struct)
    return c[0]


def fin_uid(eng):
    return adt(eng, "FiniteAboveNegOneF64")[0]


class Rule:
    """a symbolic rule object: arbitrary node-weight pairs and parameters"""

    def __init__(self, eng, struct):
        uid, a = adt(eng, struct)
        fs = []
        self.n = None
        self.params = {}
        self.pc = []
        v = a["variants"][0]
        for nm, ty in zip(v["fields"], v["tys"]):
            if "(f64, f64)" in ty and ("Box<[" in ty or "Vec<" in ty):
                self.n = var("n", "I")
                j = fresh_ix(0)
                self.arr = comp((self.n,), (j,), tup(app("x", A(j)), app("w", A(j))))
                self.pc += [le(1, self.n), le(self.n, MAXN)]
                fs.append(self.arr)
            elif ty.endswith("FiniteAboveNegOneF64"):
                p = var(nm)
                self.params[nm] = p
                self.pc.append(lt(-1, p))
                fs.append(Agg(fin_uid(eng), (p,)))
            elif "NonZero<" in ty:
                bits = 32 if "u32" in ty else 64
                self.n = var("n", "I")
                self.pc += [le(1, self.n), le(self.n, 2 ** bits - 1)]
                fs.append(nz(self.n))
            elif ty in ("f64",):
                p = var(nm)
                self.params[nm] = p
                fs.append(p)
            elif ty in ("u32", "usize", "u64"):
                self.n = var("n", "I")
                self.pc += [le(1, self.n), le(self.n, 2 ** (32 if ty == "u32" else 64) - 1)]
                fs.append(self.n)
            elif ty in ("()",) or ty.startswith("core::marker::PhantomData"):
                fs.append(UNIT)
            else:
                raise Unsupported("field %s: %s" % (nm, ty))
        self.uid = uid
        self.v = Agg(uid, fs)


def new_state(pc, ghost=False):
    st = State({}, tuple(pc))
    if ghost:
        st.cells[("ghost", "f")] = ZERO
    return st


def run(eng, st, b, args):
    rs = eng.run_body(st, b, args)
    if not rs:
        raise Unsupported("%s never returns" % b["path"])
    return rs


def post(eng, st, name, text, lhs, rhs):
    """obligation lhs == rhs (componentwise)"""
    if isinstance(lhs, P) and isinstance(rhs, P):
        v = decide_zero(lhs - rhs, list(st.pc))
        eng.obs.append(Ob("post", name, text, v, T_.T, st.pc))
        return
    if not shape_eq(lhs, rhs):
        v = Verdict(None, "shape", None, "%r is not of the shape of %r" % (lhs, rhs))
        if isinstance(lhs, Agg) and isinstance(rhs, Agg) and lhs.tag == rhs.tag and lhs.var != rhs.var:
            rng = __import__("random").Random(1)
            e = sample_env([], list(st.pc), rng)
            v = Verdict(False if e is not None else None, "refuted", e, "variant %d instead of %d" % (lhs.var, rhs.var))
        eng.obs.append(Ob("post", name, text, v, T_.T, st.pc))
        return
    for (lp, a), (_, c) in zip(leaves(lhs), leaves(rhs)):
        if isinstance(a, C):
            d = disj(conj(a, c), conj(neg(a), neg(c)))
            v = decide(d, list(st.pc))
        else:
            v = decide_zero(a - c, list(st.pc))
        eng.obs.append(Ob("post", name, text, v, T_.T, st.pc))


def post_cond(eng, st, name, text, c):
    eng.obs.append(Ob("post", name, text, decide(c, list(st.pc)), c, st.pc))


def nonvacuous(eng, pc, name):
    """the precondition is satisfiable"""
    ok = feasible(list(pc))
    eng.obs.append(Ob("nonvacuous", name, "the precondition is satisfiable", Verdict(True if ok else None, "z3"), T_.T, pc))


# ================================================================ integration
def integ_args(eng, b, selfref):
    """arguments of an integrate method: self, then the bounds, then the integrand"""
    args, reals = [], []
    L = b["body"]["locals"]
    for i in range(1, b["body"]["argc"] + 1):
        t = eng.tys(L[i])
        if i == 1:
            args.append(selfref)
        elif t == "f64":
            r = var("ab"[len(reals)]) if len(reals) < 2 else None
            if r is None:
                raise Unsupported("third real argument")
            reals.append(r)
            args.append(r)
        else:
            args.append(Opq("fn", "f"))
    return args, reals


def weighted_integrate(struct, meth):
    def go(eng):
        b = method(eng, struct, meth)
        R = Rule(eng, struct)
        st = new_state(R.pc, ghost=True)
        ref = eng.alloc(st, R.v)
        args, ab = integ_args(eng, b, ref)
        nonvacuous(eng, R.pc, b["path"])
        bounded = struct in BOUNDED
        if len(ab) != (2 if bounded else 0):
            raise Unsupported("number of bounds")
        y = A(bv(5))
        if bounded:
            at = lambda x: (ab[1] - ab[0]) / 2 * x + (ab[0] + ab[1]) / 2
            fac = (ab[1] - ab[0]) / 2
        else:
            at, fac = (lambda x: x), ONE
        k = fresh("k", "I")
        want = fac * mk_sum(R.n, app("w", A(k)) * app("f", at(app("x", A(k)))), A(k)) if False else None
        want = fac * total(R.n, lambda i: app("w", i) * app("f", at(app("x", i))))
        calls = total(R.n, lambda i: app("calls_f", at(app("x", i))))
        for s, v in run(eng, st, b, args):
            post(eng, s, b["path"], "returns the weighted sum of the integrand at the (mapped) nodes", v, want)
            post(eng, s, b["path"], "evaluates the integrand exactly once at every (mapped) node", s.cells[("ghost", "f")], calls)
            post(eng, s, b["path"], "leaves the rule unchanged", eng.read(s, ref).f[0].get(A(k)) if isinstance(
                eng.read(s, ref).f[0], Arr) else eng.read(s, ref), R.v.f[0].get(A(k)) if isinstance(R.v.f[0], Arr) else R.v)
    return go


def total(n, f):
    i = fresh("i", "I")
    return mk_sum(n, f(A(i)), i)


# ================================================================ Newton-Cotes
def nc_formula(struct, n, a, b):
    """(value, calls) of the composite rule"""
    h = (b - a) / n
    F = lambda x: app("f", x)
    Cc = lambda x: app("calls_f", x)
    if struct == "Midpoint":
        pt = lambda i: a + (i + Fr(1, 2)) * h
        return h * total(n, lambda i: F(pt(i))), total(n, lambda i: Cc(pt(i)))
    edge = lambda i: a + (i + 1) * h
    if struct == "Trapezoid":
        return (h * ((F(a) + F(b)) / 2 + total(n - 1, lambda i: F(edge(i)))),
                Cc(a) + Cc(b) + total(n - 1, lambda i: Cc(edge(i))))
    mid = lambda i: a + (i + Fr(1, 2)) * h
    return (h / 6 * (F(a) + F(b) + 2 * total(n - 1, lambda i: F(edge(i))) + 4 * total(n, lambda i: F(mid(i)))),
            Cc(a) + Cc(b) + total(n - 1, lambda i: Cc(edge(i))) + total(n, lambda i: Cc(mid(i))))


def nc_integrate(struct, meth):
    def go(eng):
        b = method(eng, struct, meth)
        R = Rule(eng, struct)
        st = new_state(R.pc, ghost=True)
        ref = eng.alloc(st, R.v)
        args, ab = integ_args(eng, b, ref)
        nonvacuous(eng, R.pc, b["path"])
        if len(ab) != 2:
            raise Unsupported("number of bounds")
        want, calls = nc_formula(struct, R.n, *ab)
        for s, v in run(eng, st, b, args):
            post(eng, s, b["path"], "returns the composite formula", v, want)
            post(eng, s, b["path"], "evaluates the integrand exactly once at every sample point", s.cells[("ghost", "f")], calls)
            post(eng, s, b["path"], "leaves the rule unchanged", eng.read(s, ref), R.v)
    return go


def nc_degree_lemma(struct, deg):
    """the composite formula integrates x^0..x^deg exactly"""
    def go(eng):
        n, a, b = var("n", "I"), var("a"), var("b")
        pc = (le(1, n),)
        want, _ = nc_formula(struct, n, a, b)
        st = new_state(pc)
        for k in range(deg + 1):
            v = inst_f(want, lambda x: x ** k)
            post(eng, st, "lemma", "%s integrates x^%d exactly" % (struct, k), v, (b ** (k + 1) - a ** (k + 1)) / (k + 1))
    return go


def inst_f(p, fn):
    """replace the uninterpreted integrand"""
    return map_atoms(p, lambda k: fn(k.args[0]) if k.kind == "app" and k.name == "f" else None)


# ================================================================ Newton-Cotes objects
def nc_new(struct):
    def go(eng):
        R = Rule(eng, struct)
        b = method(eng, struct, "new")
        st = new_state(R.pc)
        for s, v in run(eng, st, b, [nz(R.n)]):
            post(eng, s, b["path"], "new(n) holds degree n", v, R.v)
        b = method(eng, struct, "degree")
        st = new_state(R.pc)
        ref = eng.alloc(st, R.v)
        for s, v in run(eng, st, b, [ref]):
            post(eng, s, b["path"], "degree() returns the current degree", v, nz(R.n))
            post(eng, s, b["path"], "degree() changes nothing", eng.read(s, ref), R.v)
        b = method(eng, struct, "change_degree")
        m = var("m", "I")
        st = new_state(R.pc + [le(1, m), le(m, 2 ** 32 - 1)])
        ref = eng.alloc(st, R.v)
        fresh_v = subst_agg(R.v, R.n, m)
        for s, v in run(eng, st, b, [ref, nz(m)]):
            post(eng, s, b["path"], "after change_degree(m) the object equals new(m)", eng.read(s, ref), fresh_v)
    return go


def subst_agg(v, old, new):
    i = next(iter(old.fv))
    return vsubst(v, {i: new})


# ================================================================ constructors
def nz_args(eng, b, n, params):
    args = []
    L = b["body"]["locals"]
    ps = list(params)
    for i in range(1, b["body"]["argc"] + 1):
        t = eng.tys(L[i])
        if "NonZero" in t:
            args.append(nz(n))
        elif t == "usize":
            args.append(n)
        elif t.endswith("FiniteAboveNegOneF64"):
            args.append(Agg(fin_uid(eng), (ps.pop(0),)))
        else:
            raise Unsupported("argument of type %s" % t)
    if ps:
        raise Unsupported("number of parameters")
    return args


def table_of(eng, v):
    """the node-weight table of a rule object (single sequence field)"""
    arrs = [x for x in v.f if isinstance(x, Arr)]
    if len(arrs) != 1 or len(arrs[0].dims) != 1:
        raise Unsupported("the rule does not hold one table")
    return arrs[0]


def outcomes(eng, struct, meth, params=(), extra=()):
    n = var("n", "I")
    pc = [le(1, n), le(n, MAXN)] + [lt(-1, p) for p in params] + list(extra)
    b = method(eng, struct, meth)
    nonvacuous(eng, pc, b["path"])
    st = new_state(pc)
    return n, b, run(eng, st, b, nz_args(eng, b, n, params))


def same_table(eng, s, name, text, a, w):
    """two tables agree: length and every element"""
    post(eng, s, name, text + ": length", a.dims[0], w.dims[0])
    j = A(fresh("j", "I"))
    s2 = s.fork(le(0, j), lt(j, w.dims[0]))
    x, y = a.get(j), w.get(j)
    x, y = vmap(x, lambda q: simp(q, s2.pc)), vmap(y, lambda q: simp(q, s2.pc))
    post(eng, s2, name, text + ": element", x, y)


def par_new_equals_new(struct):
    def go(eng):
        n, b1, r1 = outcomes(eng, struct, "new")
        _, b2, r2 = outcomes(eng, struct, "par_new")
        for s1, v1 in r1:
            for s2, v2 in r2:
                s = State(s1.cells, tuple(s1.pc) + tuple(c for c in s2.pc if c not in s1.pc))
                if not feasible(s.pc):
                    continue
                same_table(eng, s, b2["path"], "par_new(n) equals new(n)", table_of(eng, v2), table_of(eng, v1))
    return go


def par_integrate_equals(struct):
    def go(eng):
        outs = []
        for m in ("integrate", "par_integrate"):
            b = method(eng, struct, m)
            R = Rule(eng, struct)
            st = new_state(R.pc, ghost=True)
            ref = eng.alloc(st, R.v)
            args, _ = integ_args(eng, b, ref)
            outs.append(run(eng, st, b, args))
        nonvacuous(eng, R.pc, b["path"])
        for s1, v1 in outs[0]:
            for s2, v2 in outs[1]:
                s = State(s2.cells, tuple(s1.pc) + tuple(c for c in s2.pc if c not in s1.pc))
                if not feasible(s.pc):
                    continue
                post(eng, s, b["path"], "par_integrate returns the (exact) value of integrate", v2, v1)
                post(eng, s, b["path"], "par_integrate evaluates at the same points as integrate",
                     s2.cells[("ghost", "f")], s1.cells[("ghost", "f")])
    return go


def chebyshev_closed_form(struct, meth):
    def go(eng):
        n, b, rs = outcomes(eng, struct, meth)
        for s, v in rs:
            t = table_of(eng, v)
            post(eng, s, b["path"], "exactly n pairs", t.dims[0], n)
            j = A(fresh("j", "I"))
            s2 = s.fork(le(0, j), lt(j, n))
            x = vmap(t.get(j), lambda q: simp(q, s2.pc))
            i = j + 1
            if struct.endswith("FirstKind"):
                want = tup(-mk_cos((2 * i - 1) * PI / (2 * n)), PI / n)
            else:
                want = tup(-mk_cos(i * PI / (n + 1)), PI / (n + 1) * mk_sin(i * PI / (n + 1)) ** 2)
            post(eng, s2, b["path"], "pair i has the closed form", x, want)
    return go


# ================================================================ Gauss rules by Golub-Welsch
def gw_spec(struct, k, params):
    """recurrence coefficient a_k, squared coefficient b_{k+1}^2, total mass"""
    if struct == "GaussHermite":
        return ZERO, (k + 1) / 2, mk_sqrt(PI)
    if struct == "GaussLaguerre":
        al, = params
        return 2 * k + 1 + al, (k + 1) * (k + 1 + al), mk_gamma(al + 1)
    al, be = params
    s = al + be
    a = mk_ite(eq(k, 0), (be - al) / (s + 2), (be * be - al * al) / ((2 * k + s) * (2 * k + s + 2)))
    q = k + 1
    t = 2 * q + s
    b = mk_ite(eq(k, 0), 4 * (1 + al) * (1 + be) / ((2 + s) ** 2 * (3 + s)),
               4 * q * (q + al) * (q + be) * (q + s) / (t * t * (t + 1) * (t - 1)))
    mu = mk_pow(K(2), s + 1) * mk_gamma(al + 1) * mk_gamma(be + 1) / mk_gamma(s + 2)
    return a, b, mu


DELEGATES = {"GaussLegendre": (0, 0), "GaussChebyshevFirstKind": (Fr(-1, 2), Fr(-1, 2)),
             "GaussChebyshevSecondKind": (Fr(1, 2), Fr(1, 2))}


def delegate_of(x, n, j):
    """the rule whose j-th pair x is, or None"""
    for d in DELEGATES:
        if x == tup(app(d + "_node", n, j), app(d + "_weight", n, j)):
            return d
    return None


def gauss_rule(struct, params, found):
    """new(n, params) is the n-point Gauss rule of the weight function.  found collects
    known deviations: ('middle', text)."""
    import contracts as ct

    def go(eng):
        n, b, rs = outcomes(eng, struct, "new", params)
        nm = b["path"]
        y = A(bv(700))
        Dk, Ok, mu = gw_spec(struct, y, params)
        reach = 0
        for s, v in rs:
            t = table_of(eng, v)
            post(eng, s, nm, "exactly n pairs", t.dims[0], n)
            ps = [x.f[0] for x in v.f if isinstance(x, Agg) and x.tag == fin_uid(eng)]
            post(eng, s, nm, "the rule holds the parameters it was given", tup(*ps), tup(*params))
            j = A(fresh("j", "I"))
            s2 = s.fork(le(0, j), lt(j, n))
            x = vmap(t.get(j), lambda q: simp(q, s2.pc))
            d = delegate_of(x, n, j)
            if d is not None:
                post(eng, s, nm, "delegation to %s only for its parameters" % d, tup(*params), tup(*[K(q) for q in DELEGATES[d]]))
                reach += 1
                continue
            if entails(s.pc, eq(n, 1)):
                s3 = s2.fork(eq(j, 0))
                x = vmap(t.get(ZERO), lambda q: simp(q, s3.pc))
                a0, _, m0 = gw_spec(struct, ZERO, params)
                post(eng, s3, nm, "n = 1: node a_0, weight the total mass", x, tup(a0, m0))
                reach += 1
                continue
            want = ct.eig_pair(n, Dk, Ok, mk_sqrt(Ok), y, mu, j)
            # the middle node of odd degrees may be set to zero
            cases = [(s2, x, False)]
            node = x.f[0]
            mid = None
            for k in [q for q in all_atoms(node).values() if q.kind == "ite" and q.args[1].is_zero()]:
                mid = k.args[0]
            if mid is not None and entails(list(s2.pc) + [mid], eq(2 * j + 1, n)):
                sm = s2.fork(mid)
                so = s2.fork(neg(mid))
                cases = [(so, vmap(x, lambda q: simp(q, so.pc)), False), (sm, vmap(x, lambda q: simp(q, sm.pc)), True)]
            for s4, x4, middle in cases:
                if not feasible(s4.pc):
                    continue
                reach += 1
                if middle:
                    if struct == "GaussJacobi" and feasible(list(s4.pc) + [neg(eq(params[0], params[1]))]):
                        found.append(("middle", "odd degree >= 3 with alpha != beta: the middle node is set to zero"))
                    else:
                        post(eng, s4, nm, "the diagonal vanishes where the middle node is set to zero",
                             gw_spec(struct, A(fresh("q", "I")), params)[0], ZERO)
                    pairs = [(x4.f[1], want.f[1], "weight")]
                else:
                    pairs = [(x4.f[0], want.f[0], "node"), (x4.f[1], want.f[1], "weight")]
                for a, w, what in pairs:
                    r = ct.eig_equal(a, w, s4.pc)
                    if r.ok is not True:
                        r = gw_refute(a, w, s4, n, params)
                    eng.obs.append(Ob("post", nm, "%s j is that of the Gauss rule (recurrence matrix, total mass, order)" % what,
                                      r, T_.T, s4.pc))
        if not reach:
            raise Unsupported("no reachable outcome")
    return go


def gw_refute(a, w, s, n, params):
    """compare numerically: eigenvalues of the code's and the specification's matrices"""
    import random
    import mpmath
    rng = random.Random(7)
    ranges = {"n": lambda r: r.choice([2, 3, 4, 5]), "alpha": lambda r: r.uniform(-0.9, 3), "beta": lambda r: r.uniform(-0.9, 3)}

    def mat(env, k):
        nn = int(mpmath.nint(env.ev(k.args[0])))
        y = k.args[4] if k.name == "eigvec" else k.args[3]
        yid = next(iter(y.fv))
        D = [env.clone(yid, mpmath.mpf(i)).ev(k.args[1]) for i in range(nn)]
        O2 = [env.clone(yid, mpmath.mpf(i)).ev(k.args[2]) for i in range(nn - 1)]
        M = mpmath.matrix(nn)
        for i in range(nn):
            M[i, i] = D[i]
        for i in range(nn - 1):
            if O2[i] < 0:
                raise NumErr("negative square")
            M[i, i + 1] = M[i + 1, i] = mpmath.sqrt(O2[i])
        return mpmath.eigsy(M)

    memo = {}

    def get(env, k):
        key = (id(env), k.args[:4])
        if key not in memo:
            memo[key] = mat(env, k)
        return memo[key]
    funs = {
        "eigval": lambda env, k: get(env, k)[0][int(mpmath.nint(env.ev(k.args[-1])))],
        "eigvec": lambda env, k: get(env, k)[1][int(mpmath.nint(env.ev(k.args[-2]))), int(mpmath.nint(env.ev(k.args[-1])))],
        "sigma": lambda env, k: env.ev(k.args[-1]),      # eigsy returns ascending eigenvalues
    }
    for i, pc in ((i, pc) for k, pc in enumerate(branch_pcs([a, w], list(s.pc))) for i in range(8 if k == 0 else 3)):
        e = sample_env([a, w], pc, rng, ranges, seed=i)
        if e is None:
            continue
        e.funs = funs
        try:
            p, q = e.ev(a), e.ev(w)
        except (NumErr, ValueError, IndexError):
            continue
        if abs(p - q) > mpmath.mpf(10) ** -12 * (abs(p) + abs(q)):
            d = {show_name(ATOMS[k].name): mpmath.nstr(v, 12) for k, v in e.v.items()}
            return Verdict(False, "refuted", e, "%s instead of %s at %s" % (mpmath.nstr(p, 12), mpmath.nstr(q, 12), d))
    return Verdict(None, "unknown", None, "not decided")


def jacobi_conversions(eng):
    """From<Legendre / Chebyshev> for Jacobi keep the table and set the parameters"""
    for src, ps in DELEGATES.items():
        bs = [b for b in eng.d["bodies"] if b.get("name") == "from" and b.get("impl_self") and short(b["impl_self"]) == "GaussJacobi"
              and b.get("impl_trait") and src in eng.tys(b["body"]["locals"][1])]
        if len(bs) != 1:
            raise Unsupported("conversion from %s not found" % src)
        R = Rule(eng, src)
        st = new_state(R.pc)
        for s, v in run(eng, st, bs[0], [R.v]):
            same_table(eng, s, bs[0]["path"], "the conversion keeps the table", table_of(eng, v), R.arr)
            got = [x.f[0] for x in v.f if isinstance(x, Agg) and x.tag == fin_uid(eng)]
            post(eng, s, bs[0]["path"], "the conversion sets the parameters", tup(*got), tup(*[K(q) for q in ps]))
            check_getters(eng, s, v, "GaussJacobi", {"alpha": K(ps[0]), "beta": K(ps[1])})


def check_getters(eng, s, v, struct, want):
    for nm, p in want.items():
        b = method(eng, struct, nm)
        s2 = s.fork()
        ref = eng.alloc(s2, v)
        for s3, r in run(eng, s2, b, [ref]):
            post(eng, s3, b["path"], "%s() reports the parameter" % nm, r, Agg(fin_uid(eng), (p,)))


def jacobi_new_delegates(params):
    """new(n, a, b) with special parameters is exactly the delegate's rule; other parameters are kept"""
    def go(eng):
        n, b, rs = outcomes(eng, "GaussJacobi", "new", params)
        nm = b["path"]
        for d, ps in DELEGATES.items():
            hit = 0
            for s, v in rs:
                s1 = s.fork(*[eq(p, K(q)) for p, q in zip(params, ps)])
                if not feasible(s1.pc):
                    continue
                hit += 1
                t = table_of(eng, v)
                j = A(fresh("j", "I"))
                s2 = s1.fork(le(0, j), lt(j, n))
                post(eng, s2, nm, "new with the parameters of %s is that rule: length" % d, t.dims[0], n)
                post(eng, s2, nm, "new with the parameters of %s is that rule" % d,
                     vmap(t.get(j), lambda q: simp(q, s2.pc)), tup(app(d + "_node", n, j), app(d + "_weight", n, j)))
            eng.obs.append(Ob("nonvacuous", nm, "the special parameters of %s are reachable" % d,
                              Verdict(True if hit else None, "z3"), T_.T, ()))
        for s, v in rs:
            check_getters(eng, s, v, "GaussJacobi", dict(zip(("alpha", "beta"), params)))
    return go


def laguerre_keeps_alpha(al):
    def go(eng):
        n, b, rs = outcomes(eng, "GaussLaguerre", "new", (al,))
        for s, v in rs:
            check_getters(eng, s, v, "GaussLaguerre", {"alpha": al})
    return go


def exactly_n(struct, meth, params=()):
    def go(eng):
        n, b, rs = outcomes(eng, struct, meth, params)
        for s, v in rs:
            post(eng, s, b["path"], "exactly n pairs", table_of(eng, v).dims[0], n)
            d = method(eng, struct, "degree")
            s2 = s.fork()
            ref = eng.alloc(s2, v)
            for s3, r in run(eng, s2, d, [ref]):
                post(eng, s3, d["path"], "degree() returns n", r, n)
    return go


def chebyshev_ascending(struct, meth):
    """the arguments of -cos increase strictly inside [0, pi], where cos decreases"""
    def go(eng):
        n, b, rs = outcomes(eng, struct, meth)
        for s, v in rs:
            t = table_of(eng, v)
            j = A(fresh("j", "I"))
            s2 = s.fork(le(0, j), lt(j + 1, n))
            arg = (lambda i: (2 * i + 1) * PI / (2 * n)) if struct.endswith("FirstKind") else (lambda i: (i + 1) * PI / (n + 1))
            for k in (j, j + 1):
                x = vmap(t.get(k), lambda q: simp(q, s2.pc))
                post(eng, s2, b["path"], "node j is -cos of its angle", x.f[0], -mk_cos(arg(k)))
                post_cond(eng, s2, b["path"], "the angle lies in [0, pi]", conj(le(0, arg(k)), le(arg(k), PI)))
            post_cond(eng, s2, b["path"], "the angles increase", lt(arg(j), arg(j + 1)))
    return go


# ================================================================ views and iterators (C10, C11)
ITER_SPECS = {"next", "next_back", "nth", "nth_back", "size_hint", "len", "count", "last", "as_slice", "as_ref", "clone",
              "fmt", "new", "default", "fold", "rfold", "for_each"}


def impl_body(eng, self_name, name, trait=None, borrowed=False):
    """the method `name` of the (possibly borrowed) type self_name"""
    for b in eng.d["bodies"]:
        if b.get("name") != name or b["kind"] == "Closure" or not b.get("impl_self") or not b.get("body"):
            continue
        t = b["impl_self"]
        if t.startswith("&") != borrowed or short(t) != self_name:
            continue
        tr = b.get("impl_trait")
        if trait is None or (tr is not None and tr.split("<")[0].split("::")[-1] == trait):
            return b
    return None


def deref(eng, st, v):
    while isinstance(v, Ref) and not (v.path and v.path[-1][0] == "r"):
        v = eng.read(st, v)
    return v


def slice_parts(eng, st, v):
    """(length, element function) of a slice value"""
    if isinstance(v, Arr):
        return v.dims[0], v.get
    if isinstance(v, Ref):
        n = eng.alen(st, v)
        return n, lambda i: eng.read(st, v.ext(("i", i)))
    if isinstance(v, Agg) and len(v.f) == 1:
        return slice_parts(eng, st, v.f[0])
    raise Unsupported("not a slice")


def expected_item(R, kind):
    if kind == "count":
        return lambda i: i
    def f(i):
        p = R.arr.get(i)
        return p if kind == "pair" else p.f[0 if kind == "node" else 1]
    return f


def iter_of(v):
    """the library iterator inside an iterator newtype"""
    while isinstance(v, Agg) and v.tag != "iter":
        if len(v.f) != 1:
            raise Unsupported("representation of %s" % v.tag)
        v = v.f[0]
    if not isinstance(v, Agg) or v.f[0].tag == "s:mut":
        raise Unsupported("representation of an iterator")
    return v


def rule_views(struct):
    """constructors of views: every view presents the whole table in order"""
    def go(eng):
        R = Rule(eng, struct)
        j = var("j", "I")
        inr = (le(0, j), lt(j, R.n))

        def check_seq(s, b, what, length, get, kind):
            post(eng, s, b["path"], what + ": number of elements", length, R.n)
            s2 = s.fork(*inr)
            post(eng, s2, b["path"], what + ": element j", deref(eng, s2, get(s2, j)), expected_item(R, kind)(j))

        def go1(name, kind, trait=None, borrowed=False, own=False, required=True):
            b = impl_body(eng, struct, name, trait, borrowed)
            if b is None:
                if required:
                    raise Unsupported("%s::%s not found" % (struct, name))
                return
            st = new_state(R.pc)
            ref = eng.alloc(st, R.v)
            for s, v in run(eng, st, b, [R.v if own else ref]):
                if kind == "slice":
                    n, g = slice_parts(eng, s, v)
                    check_seq(s, b, name, n, lambda s_, i: g(i), "pair")
                elif kind == "degree":
                    post(eng, s, b["path"], "degree() is the number of elements", v.f[0] if isinstance(v, Agg) else v, R.n)
                else:
                    w = iter_of(v)
                    src, lo, hi = w.f

                    def get(s_, i):
                        rs = std.elem(eng, s_, src, lo + i, {})
                        if len(rs) != 1:
                            raise Unsupported("element of an iterator")
                        return rs[0][1]
                    check_seq(s, b, name, hi - lo, get, kind)
                if not own:
                    post(eng, s, b["path"], name + " leaves the rule unchanged", cmpval(eng.read(s, ref), j), cmpval(R.v, j))
        if struct in NC:
            go1("iter", "count")
            go1("into_iter", "count", "IntoIterator", own=True)
            go1("into_iter", "count", "IntoIterator", borrowed=True)
            go1("degree", "degree")
            return
        go1("as_node_weight_pairs", "slice")
        go1("into_node_weight_pairs", "slice", own=True)
        go1("degree", "degree")
        go1("iter", "pair")
        go1("nodes", "node")
        go1("weights", "weight")
        go1("into_iter", "pair", "IntoIterator", own=True)
        go1("into_iter", "pair", "IntoIterator", borrowed=True)
    return go


def cmpval(v, j):
    """a rule value with its table replaced by length and generic element"""
    if isinstance(v, Arr):
        return tup(v.dims[0], v.get(j))
    if isinstance(v, Agg):
        return Agg(v.tag, tuple(cmpval(x, j) for x in v.f), v.var)
    return v


VIEWS = [("iter", "pair", None, False, False), ("nodes", "node", None, False, False), ("weights", "weight", None, False, False),
         ("into_iter", "pair", "IntoIterator", False, True)]


def iterator_contract(struct, view):
    """every method of the view's iterator type against the double-ended queue over its
    remaining elements lo..hi of an arbitrary rule"""
    name, kind, trait, borrowed, own = view

    def go(eng):
        R = Rule(eng, struct)
        b0 = impl_body(eng, struct, name, trait, borrowed)
        if b0 is None:
            raise Unsupported("%s::%s not found" % (struct, name))
        if struct in NC:
            item = expected_item(R, "count")
        else:
            item = expected_item(R, kind)
        lo, hi, k = var("lo", "I"), var("hi", "I"), var("k", "I")
        inv = (le(0, lo), le(lo, hi), le(hi, R.n))
        kpc = (le(0, k), le(k, 2 ** 64 - 1))
        st0 = new_state(R.pc)
        ref0 = eng.alloc(st0, R.v)
        starts = run(eng, st0, b0, [R.v if own else ref0])
        nonvacuous(eng, list(R.pc) + list(inv) + list(kpc), b0["path"])
        for s0, it0 in starts:
            w0 = iter_of(it0)
            tag = it0.tag
            if not tag.startswith("gauss_quad"):
                raise Unsupported("%s yields %s" % (name, tag))
            sname = short(tag)
            s0 = s0.fork(*inv)
            itv = std.iter_update(it0, w0.f[1] + lo, w0.f[1] + hi)

            def state(*pc):
                s = s0.fork(*pc)
                return s, eng.alloc(s, itv)

            def queue(s, b, what, ref, nlo, nhi):
                """the iterator now presents nlo..nhi"""
                v = eng.read(s, ref)
                w = iter_of(v)
                if v.tag != tag:
                    raise Unsupported("iterator of another type")
                post(eng, s, b["path"], what + ": number of remaining elements", w.f[2] - w.f[1], nhi - nlo)
                j = var("j", "I")
                s2 = s.fork(le(0, j), lt(j, nhi - nlo))
                if feasible(list(s2.pc)):
                    rs = std.elem(eng, s2, w.f[0], w.f[1] + j, {})
                    if len(rs) != 1:
                        raise Unsupported("element of an iterator")
                    post(eng, rs[0][0], b["path"], what + ": remaining element j", deref(eng, rs[0][0], rs[0][1]), item(nlo + j))

            def is_some(s, b, what, v, want):
                """v is Some(want) / None"""
                if not (isinstance(v, Agg) and v.tag == "core::option::Option"):
                    raise Unsupported("%s does not return an Option" % b["path"])
                if want is None:
                    post(eng, s, b["path"], what + ": None", Agg(v.tag, (), v.var), NONE)
                elif v.var != some(ZERO).var:
                    post(eng, s, b["path"], what + ": Some", Agg(v.tag, (), v.var), Agg(v.tag, (), some(ZERO).var))
                else:
                    post(eng, s, b["path"], what + ": the element", deref(eng, s, v.f[0]), want)

            seen = set()
            for b in eng.d["bodies"]:
                if b["kind"] == "Closure" or not b.get("impl_self") or short(b["impl_self"]) != sname:
                    continue
                m = b.get("name")
                if m not in ITER_SPECS and b.get("impl_trait") and "iter::traits" in b["impl_trait"]:
                    raise Unsupported("no contract for %s::%s" % (sname, m))
                if not b.get("body") or m in seen:
                    continue
                seen.add(m)
                if m in ("next", "next_back"):
                    back = m == "next_back"
                    s, ref = state(lt(lo, hi))
                    for s2, v in run(eng, s, b, [ref]):
                        is_some(s2, b, m, v, item(hi - 1 if back else lo))
                        queue(s2, b, m, ref, lo if back else lo + 1, hi - 1 if back else hi)
                    s, ref = state(eq(lo, hi))
                    for s2, v in run(eng, s, b, [ref]):
                        is_some(s2, b, m + " when exhausted", v, None)
                        queue(s2, b, m + " when exhausted", ref, ZERO, ZERO)
                elif m in ("nth", "nth_back"):
                    back = m == "nth_back"
                    s, ref = state(lt(lo + k, hi), *kpc)
                    for s2, v in run(eng, s, b, [ref, k]):
                        is_some(s2, b, m, v, item(hi - 1 - k if back else lo + k))
                        queue(s2, b, m, ref, lo if back else lo + k + 1, hi - 1 - k if back else hi)
                    s, ref = state(le(hi, lo + k), *kpc)
                    for s2, v in run(eng, s, b, [ref, k]):
                        is_some(s2, b, m + " beyond the end", v, None)
                        queue(s2, b, m + " beyond the end", ref, ZERO, ZERO)
                elif m == "size_hint":
                    s, ref = state()
                    for s2, v in run(eng, s, b, [ref]):
                        post(eng, s2, b["path"], "size_hint is exact", v, tup(hi - lo, some(hi - lo)))
                        queue(s2, b, m, ref, lo, hi)
                elif m in ("len",):
                    s, ref = state()
                    for s2, v in run(eng, s, b, [ref]):
                        post(eng, s2, b["path"], "len is the number of remaining elements", v, hi - lo)
                        queue(s2, b, m, ref, lo, hi)
                elif m == "count":
                    s, ref = state()
                    for s2, v in run(eng, s, b, [itv]):
                        post(eng, s2, b["path"], "count is the number of remaining elements", v, hi - lo)
                elif m == "last":
                    s, ref = state(lt(lo, hi))
                    for s2, v in run(eng, s, b, [itv]):
                        is_some(s2, b, m, v, item(hi - 1))
                    s, ref = state(eq(lo, hi))
                    for s2, v in run(eng, s, b, [itv]):
                        is_some(s2, b, m + " when exhausted", v, None)
                elif m in ("fold", "rfold", "for_each"):
                    # run with an observer that records the items it is given
                    s, ref = state()
                    s = s.fork()
                    log = eng.alloc(s, mklist([]))
                    rec = Agg("py:record", (log,) if m == "for_each" else ())
                    for s2, v in run(eng, s, b, [itv, rec] if m == "for_each" else [itv, mklist([]), rec]):
                        v = eng.read(s2, log) if m == "for_each" else v
                        if not isinstance(v, Arr):
                            raise Unsupported("%s does not return the accumulator" % m)
                        post(eng, s2, b["path"], m + " visits the remaining elements: number", v.dims[0], hi - lo)
                        j = var("j", "I")
                        s3 = s2.fork(le(0, j), lt(j, hi - lo))
                        if feasible(list(s3.pc)):
                            post(eng, s3, b["path"], m + " visits the remaining elements: item j", v.get(j),
                                 item(hi - 1 - j if m == "rfold" else lo + j))
                elif m in ("as_slice", "as_ref"):
                    s, ref = state()
                    for s2, v in run(eng, s, b, [ref]):
                        n, g = slice_parts(eng, s2, v)
                        post(eng, s2, b["path"], m + " has the remaining elements", n, hi - lo)
                        j = var("j", "I")
                        s3 = s2.fork(le(0, j), lt(j, hi - lo))
                        post(eng, s3, b["path"], m + ": element j", deref(eng, s3, g(j)), item(lo + j))
                        queue(s2, b, m, ref, lo, hi)
                elif m == "clone":
                    s, ref = state()
                    for s2, v in (std.derived(eng, s, b, [ref], {}) if b.get("derived") else run(eng, s, b, [ref])):
                        queue(s2, b, "clone", eng.alloc(s2, v), lo, hi)
                        queue(s2, b, "clone (original)", ref, lo, hi)
            for m in ("next", "next_back", "size_hint", "nth", "nth_back"):
                if m not in seen and m in ("next", "next_back"):
                    raise Unsupported("%s has no %s" % (sname, m))
    return go
