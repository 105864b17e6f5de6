"""Proof units for C08 and C09: values of Gauss-Legendre nodes and weights."""
from specs import *
import specs, logic
from logic import Verdict
import contracts as ct
import legendre as lg
from mpmath import mp, mpf
import mpmath

TOL_X, TOL_W8, TOL_W9 = mpf(10) ** -15, mpf(10) ** -14, mpf(10) ** -13
U = mpf(2) ** -53


def find_pair(eng):
    """body of the crate's function (n, k) -> node-weight pair"""
    c = ct.Contracts(eng.d)
    c.legendre_pair()
    p = getattr(c, "pair_path", None)
    if p is None:
        raise Unsupported("no function of (n, k) that makes a node-weight pair")
    return eng.by_path[p]


def table_elements(struct, meth):
    """element j of the table of degree n is the pair of index n - j"""
    def go(eng):
        n, b, rs = outcomes(eng, struct, meth)
        for s, v in rs:
            a = table_of(eng, v)
            post(eng, s, b["path"], "length of the table", a.dims[0], n)
            j = A(fresh("j", "I"))
            s2 = s.fork(le(0, j), lt(j, n))
            want = tup(app("legendre_pair0", n, n - j), app("legendre_pair1", n, n - j))
            got = vmap(a.get(j), lambda q: simp(q, s2.pc))
            post(eng, s2, b["path"], "element j is the node and the weight of index n - j", got, want)
    return go


def numeric(eng, name, text, err, tol, how, pc=(), env=None, detail=""):
    ok = err <= tol
    e = None
    if not ok and env is not None:
        e = logic.Env({next(iter(var(k, "I").fv)): mpf(v) for k, v in env.items()})
    eng.obs.append(Ob("post", name, text, Verdict(True if ok else False, how if ok else "refuted", e,
                                                  "%s: error %s, allowed %s" % (detail, mpmath.nstr(err, 5), mpmath.nstr(tol, 5))),
                      T_.T, pc))


_exact = {}


def ex(n, k):
    if 2 * k > n + 1:
        x, w = ex(n, n + 1 - k)
        return -x, w
    if (n, k) not in _exact:
        _exact[n, k] = lg.exact(n, k)
    return _exact[n, k]


def ground_pairs(lo, hi):
    """every pair of degree lo..hi: the term the code denotes, evaluated in 50 digits"""
    def go(eng):
        b = find_pair(eng)
        E0 = logic.Env({})
        how = "ground evaluation (50 digits)"
        with mp.workdps(50):
            for n in range(lo, hi + 1):
                ts = {}
                for k in range(1, n + 1):
                    st = new_state([])
                    rs = run(eng, st, b, [K(n), K(k)])
                    if len(rs) != 1:
                        raise Unsupported("%d outcomes for concrete arguments" % len(rs))
                    v = rs[0][1]
                    ts[k] = v.f
                    x, w = E0.ev(v.f[0]), E0.ev(v.f[1])
                    tx, tw = ex(n, k)
                    env = {"n": n, "k": k}
                    numeric(eng, b["path"], "node %d of degree %d" % (k, n), abs(x - tx), TOL_X, how, (), env, "n = %d, k = %d" % (n, k))
                    numeric(eng, b["path"], "weight %d of degree %d" % (k, n), abs(w / tw - 1), TOL_W8, how, (), env, "n = %d, k = %d" % (n, k))
                for k in range(1, (n + 1) // 2 + 1):
                    m = n + 1 - k
                    env = {"n": n, "k": k}
                    dx = ts[k][0] + ts[m][0]
                    dw = ts[k][1] - ts[m][1]
                    if not dx.is_zero() or not dw.is_zero():
                        numeric(eng, b["path"], "pair %d, %d of degree %d is symmetric" % (k, m, n),
                                max(abs(E0.ev(dx)), abs(E0.ev(dw))), mpf(10) ** -30, how, (), env, "n = %d, k = %d" % (n, k))
                    else:
                        eng.obs.append(Ob("post", b["path"], "pair %d, %d of degree %d is symmetric" % (k, m, n),
                                          Verdict(True, "normal form"), T_.T, ()))
    return go


# ---------------------------------------------------------------------- Bessel functions
K0 = 64


def usize_to_f64(d):
    out = []
    for b in d["bodies"]:
        bd = b.get("body")
        if bd and bd["argc"] == 1 and b["kind"] != "Closure" and not b.get("impl_trait"):
            T = d["types"]
            if T[bd["locals"][1]]["s"] == "usize" and T[bd["locals"][0]]["s"] == "f64":
                out.append(b)
    return out


def cheb_pts(lo, hi, m):
    return [(lo + hi) / 2 + (hi - lo) / 2 * mpmath.cos((2 * i + 1) * mpmath.pi / (2 * m)) for i in range(m)]


def cheb_coefs(vals):
    """Chebyshev coefficients of the interpolant through values at cheb_pts"""
    m = len(vals)
    out = []
    for j in range(m):
        s = mpmath.fsum(v * mpmath.cos(j * (2 * i + 1) * mpmath.pi / (2 * m)) for i, v in enumerate(vals))
        out.append(s * (2 if j else 1) / m)
    return out


def rational_in(p, ok):
    """every atom is an allowed variable or the inverse of a polynomial in those"""
    for a in p.atoms():
        k = ATOMS[a]
        if a in ok or a == T_.PI_ID:
            continue
        if k.kind == "poly" and rational_in(k.args[0], ok):
            continue
        return False
    return True


BESSEL = {"j0zero": ("zero number k of J_0", 0), "j1sq": ("J_1 squared at zero number k of J_0", 1)}
BTOL = {"j0zero": mpf(2) ** -52, "j1sq": mpf(10) ** -15}


def bessel_value(eng, b, k):
    rs = run(eng, new_state([]), b, [K(k)])
    if len(rs) != 1:
        raise Unsupported("%d outcomes for a concrete index" % len(rs))
    return logic.Env({}).ev(rs[0][1])


def classify(eng, b):
    """which Bessel quantity the function is meant to be: decided at k = 1 .. 3 to a percent"""
    for nm, (_, i) in BESSEL.items():
        if sum(abs(bessel_value(eng, b, k) / lg.j0(k)[i] - 1) < mpf("0.01") for k in (1, 2, 3, 5, 30, 70)) >= 4:
            return nm
    return None


def bessel_handler(nm):
    def h(eng, st, args, ctx):
        eng.oblige(st, le(1, args[0]), "pre", "%s: index at least 1" % nm, ctx.get("line"))
        return [(st, app(nm, args[0]))]
    return h


def bessel_contract(path, nm):
    text, comp_ = BESSEL[nm]

    def go(eng):
        b = eng.by_path[path]
        tol = BTOL[nm]
        with mp.workdps(50):
            for k in range(1, K0 + 1):
                v = bessel_value(eng, b, k)
                want = lg.j0(k)[comp_]
                numeric(eng, path, "%s, k = %d" % (text, k), abs(v / want - 1), tol, "ground evaluation (50 digits)", (),
                        {"n": max(101, 2 * k + 1), "k": k}, "k = %d" % k)
            k = var("k", "I")
            st = new_state([le(K0 + 1, k), le(k, MAXN)])
            ki = next(iter(k.fv))
            for s, v in run(eng, st, b, [k]):
                if not rational_in(v, {ki}):
                    raise Unsupported("not a rational function of the index")
                us = cheb_pts(mpf(0), 1 / (mpmath.pi * (K0 + mpf(3) / 4)), 40)
                vals = []
                for u in us:
                    kk = 1 / (mpmath.pi * u) + mpf(1) / 4
                    want = lg.j0_asym(kk, 13)[comp_]
                    vals.append(logic.Env({ki: kk}).ev(v) / want - 1)
                sup = sum(abs(c) for c in cheb_coefs(vals))
                env = None
                if sup > tol:
                    i = max(range(len(us)), key=lambda i: abs(vals[i]))
                    kk = int(mpmath.nint(1 / (mpmath.pi * us[i]) + mpf(1) / 4))
                    env = {"n": 2 * kk + 1, "k": kk}
                numeric(eng, path, "%s, every k > %d" % (text, K0), sup, tol, "asymptotic series, Chebyshev bound (50 digits)",
                        s.pc, env, "relative error")
    return go


# ---------------------------------------------------------------------- compute_pair: series in w = 1/(n + 1/2)
R = 13
T_MAX = mpmath.pi / 2 + mpf(3) / 100
NODES = 26
W0 = mpf(2) / 203


class Ser:
    """Laurent series in w with numeric coefficients, R of them from the lowest power on"""
    __slots__ = ("v", "c")

    def __init__(self, v, c):
        i = 0
        while i < len(c) and c[i] == 0:
            i += 1
        if i == len(c):
            v, c = 0, []
        elif i:
            v, c = v + i, c[i:]
        self.v, self.c = v, c[:R]

    def add(self, o):
        if not self.c:
            return o
        if not o.c:
            return self
        v = min(self.v, o.v)
        hi = min(self.v + R, o.v + R)
        r = [mpf(0)] * (min(hi, max(self.v + len(self.c), o.v + len(o.c))) - v)
        for s in (self, o):
            for i, x in enumerate(s.c):
                if s.v + i - v < len(r):
                    r[s.v + i - v] += x
        # cancellation of leading digits
        big = max((abs(x) for x in self.c + o.c), default=mpf(0))
        r = [x if abs(x) > big * mpf(10) ** -50 else mpf(0) for x in r]
        return Ser(v, r)

    def mul(self, o):
        if not self.c or not o.c:
            return Ser(0, [])
        n = min(R, len(self.c) + len(o.c) - 1)
        r = [mpf(0)] * n
        for i, x in enumerate(self.c):
            if x:
                for j in range(min(len(o.c), n - i)):
                    y = o.c[j]
                    if y:
                        r[i + j] += x * y
        return Ser(self.v + o.v, r)

    def inv(self):
        if not self.c:
            raise Unsupported("division by a series that vanishes")
        c = self.c + [mpf(0)] * (R - len(self.c))
        return Ser(-self.v, lg.ninv(c, R))

    def pow(self, e):
        b = self if e > 0 else self.inv()
        r = Ser(0, [mpf(1)])
        e = abs(e)
        while e:
            if e & 1:
                r = r.mul(b)
            e >>= 1
            if e:
                b = b.mul(b)
        return r

    def at(self, i):
        j = i - self.v
        return self.c[j] if 0 <= j < len(self.c) else mpf(0)


class SerEval:
    def __init__(self, n_id, q, t, beta):
        self.n_id, self.q, self.t, self.beta = n_id, q, t, beta
        self.memo = {}

    def ev(self, p):
        r = Ser(0, [])
        for m, c in p.t.items():
            x = Ser(0, [mpf(c.numerator) / c.denominator])
            for a, e in m:
                x = x.mul(self.pw(a, e))
            r = r.add(x)
        return r

    def pw(self, a, e):
        k = (a, e)
        if k not in self.memo:
            self.memo[k] = self.atom(a) if e == 1 else self.pw(a, 1).pow(e)
        return self.memo[k]

    def atom(self, a):
        k = ATOMS[a]
        if a == self.n_id:
            return Ser(-1, [mpf(1), mpf(-1) / 2])
        if a == T_.PI_ID:
            return Ser(0, [+mpmath.pi])
        if k.kind == "poly":
            return self.ev(k.args[0])
        if k.kind == "app" and k.name in ("j0zero", "j1sq"):
            if k.args[0] != self.q:
                raise Unsupported("Bessel quantities at different indices")
            return Ser(-1, [self.t]) if k.name == "j0zero" else Ser(0, [self.beta])
        if k.kind == "app" and k.name in ("sin", "cos"):
            x = self.ev(k.args[0])
            if x.c and x.v < 0:
                raise Unsupported("argument of sin not bounded")
            t0 = x.at(0)
            d = Ser(x.v, x.c).add(Ser(0, [-t0])) if x.c else x
            if d.c and d.v == 0:
                d = Ser(1, d.c[1:])
            s, c = mpmath.sin(t0), mpmath.cos(t0)
            tab = [s, c, -s, -c] if k.name == "sin" else [c, -s, -c, s]
            r, pwr, f = Ser(0, []), Ser(0, [mpf(1)]), mpf(1)
            for i in range(R + 1):
                r = r.add(Ser(pwr.v, [y * tab[i % 4] / f for y in pwr.c]))
                pwr = pwr.mul(d)
                f *= i + 1
                if not pwr.c or pwr.v >= R:
                    break
            return r
        if k.kind == "app" and k.name == "sqrt":
            x = self.ev(k.args[0])
            if not x.c or x.v % 2 or x.c[0] <= 0:
                raise Unsupported("sqrt of a series")
            y = Ser(x.v // 2, [mpmath.sqrt(x.c[0])])
            for _ in range(5):
                y = y.add(x.mul(y.inv()))
                y = Ser(y.v, [z / 2 for z in y.c])
            return y
        raise Unsupported("%s in the expansion" % show_atom(k)[:60])


_truth = {}


def truth(t):
    if t not in _truth:
        _truth[t] = lg.truth(t, 6)
    return _truth[t]


def atoms_deep(p):
    return T_.all_atoms(p)


def bessel_args(*ps):
    out = []
    for p in ps:
        for a in T_.all_atoms(p):
            k = ATOMS[a]
            if k.kind == "app" and k.name in ("j0zero", "j1sq") and k.args[0] not in out:
                out.append(k.args[0])
    return out


def large_pairs(eng):
    """node and weight of every degree above 100 as series in w, against the expansion of the exact pair"""
    b = find_pair(eng)
    n, k = var("n", "I"), var("k", "I")
    nid, kid = next(iter(n.fv)), next(iter(k.fv))
    st = new_state([le(101, n), le(n, MAXN), le(1, k), le(k, n)])
    rs = run(eng, st, b, [n, k])
    q = var("q", "I")
    with mp.workdps(60):
        pts = [x for x in cheb_pts(-T_MAX, T_MAX, 2 * NODES) if x > 0]
        for s, v in rs:
            node, weight = v.f
            ix = bessel_args(node, weight)
            if len(ix) != 1:
                raise Unsupported("the pair does not depend on one Bessel index")
            ix = ix[0]
            eng.obs.append(Ob("pre", b["path"], "Bessel index at least 1", decide(le(1, ix), list(s.pc)), T_.T, s.pc))
            eng.obs.append(Ob("pre", b["path"], "Bessel index at most n/2 + 1", decide(le(ix, n / 2 + 1), list(s.pc)), T_.T, s.pc))
            if (ix - k).is_zero():
                sign = 1
                sub = lambda p: subst(p, {kid: q})
            elif (ix - (n + 1 - k)).is_zero():
                sign = -1
                sub = lambda p: subst(p, {kid: n + 1 - q})
            else:
                raise Unsupported("Bessel index %s" % show(ix))
            node, weight = sub(node), sub(weight)
            # divisions, and the errors
            series_errors(eng, b, s, nid, q, node, weight, sign, pts)
        for o in eng.obs:
            if o.kind == "defined" and o.verdict.ok is None and o.cond is not None:
                nonzero_divisor(eng, o, nid, kid, n, k, q, pts)


def even_cheb(vals):
    """coefficients (in T_0, T_2, ..) of the even interpolant through the positive nodes"""
    m = 2 * len(vals)
    out = []
    for j in range(0, m, 2):
        s = mpmath.fsum(v * mpmath.cos(j * (2 * i + 1) * mpmath.pi / (2 * m)) for i, v in enumerate(vals))
        out.append(2 * s * (2 if j else 1) / m)
    return out


def series_errors(eng, b, s, nid, q, node, weight, sign, pts):
    dx = [[] for _ in range(R)]
    dw = [[] for _ in range(R)]
    beta2 = []
    for t in pts:
        E1 = SerEval(nid, q, t, mpf(1))
        x, w = E1.ev(node), E1.ev(weight)
        F, X, V = truth(t)
        if x.c and x.v < 0:
            raise Unsupported("node not bounded")
        for i in range(11):
            want = sign * X[i // 2] if i % 2 == 0 else mpf(0)
            dx[i].append(x.at(i) - want)
        # weight = 2 w^2 / (t b) * sum V_m w^(2m)
        r = w.mul(Ser(-2, [t / 2]))
        if r.c and r.v < 0:
            raise Unsupported("weight not of the order of w")
        for i in range(11):
            want = V[i // 2] if i % 2 == 0 else mpf(0)
            dw[i].append((r.at(i) - want) / V[0])
        if len(beta2) < 3:
            w2 = SerEval(nid, q, t, mpf(7) / 3).ev(weight)
            beta2.append(max(abs(w2.at(i) * 7 / 3 - w.at(i)) for i in range(w.v, w.v + 8)) / abs(w.c[0]))
    how = "power series in 1/(n+1/2), Chebyshev bound (60 digits)"
    numeric(eng, b["path"], "the weight is inversely proportional to J_1 squared", max(beta2), mpf(10) ** -30, how, s.pc)
    det = []
    ex_, ew = mpf(0), mpf(0)
    worst = (mpf(0), pts[0])
    for i in range(11):
        for d, nm in ((dx, "node"), (dw, "weight")):
            sup = sum(abs(c) for c in even_cheb(d[i])) * W0 ** i
            if nm == "node":
                ex_ += sup
            else:
                ew += sup
            m = max(range(len(pts)), key=lambda j: abs(d[i][j]))
            g = abs(d[i][m]) * W0 ** i / (TOL_X if nm == "node" else TOL_W9)
            if g > worst[0]:
                worst = (g, pts[m])
    # perturbation of the Bessel quantities allowed by their contracts
    ex_ += T_MAX * BTOL["j0zero"] * mpf("1.01")
    ew += (BTOL["j0zero"] * mpf("2.01") + BTOL["j1sq"]) * mpf("1.01")
    t = worst[1]
    N = 101
    kk = max(1, min((N + 1) // 2, int(mpmath.nint(t * (N + mpf(1) / 2) / mpmath.pi + mpf(1) / 4))))
    env = {"n": N, "k": kk if sign > 0 else N + 1 - kk}
    numeric(eng, b["path"], "node of every degree n > 100 (%s)" % ("direct" if sign > 0 else "mirrored"), ex_, TOL_X, how, s.pc, env,
            "worst near theta = %s" % mpmath.nstr(t, 5))
    numeric(eng, b["path"], "weight of every degree n > 100 (%s)" % ("direct" if sign > 0 else "mirrored"), ew, TOL_W9, how, s.pc, env,
            "worst near theta = %s" % mpmath.nstr(t, 5))


def nonzero_divisor(eng, o, nid, kid, n, k, q, pts):
    """the divisor's leading coefficient in w keeps one sign on (0, T_MAX] and dominates the rest"""
    c = o.cond
    if c.op != "not" or c.a[0].op != "=":
        return
    p = c.a[0].a[0]
    ix = bessel_args(p)
    if len(ix) != 1:
        return
    if (ix[0] - k).is_zero():
        p = subst(p, {kid: q})
    elif (ix[0] - (n + 1 - k)).is_zero():
        p = subst(p, {kid: n + 1 - q})
    else:
        return
    lead, tail = [], mpf(0)
    v0 = None
    for t in pts:
        x = SerEval(nid, q, t, mpf(1)).ev(p)
        if not x.c:
            return
        if v0 is None:
            v0 = x.v
        if x.v != v0:
            return
        lead.append(x.c[0])
        tail = max(tail, sum(abs(y) * W0 ** (i + 1) for i, y in enumerate(x.c[1:])) / abs(x.c[0]))
    # order at t = 0
    a, bb = lead[-1], lead[-2]
    e = int(mpmath.nint(mpmath.log(abs(bb / a)) / mpmath.log(pts[-2] / pts[-1])))
    f = [y / t ** e for y, t in zip(lead, pts)]
    if tail > mpf("0.5") or len({y > 0 for y in f}) != 1:
        return
    co = even_cheb(f)
    lip = sum(abs(cj) * (2 * j) ** 2 for j, cj in enumerate(co)) / T_MAX
    rest = sum(abs(cj) for cj in co[-6:])
    G = 400
    lo = min(abs(sum(cj * mpmath.cos(2 * j * th) for j, cj in enumerate(co)))
             for th in (mpmath.acos(mpf(i) / G) for i in range(G + 1)))
    if lo - lip * T_MAX / G - 10 * rest > 0:
        o.verdict = Verdict(True, "power series in 1/(n+1/2), Chebyshev bound (60 digits)")


def large_safe(eng):
    b = find_pair(eng)
    n, k = var("n", "I"), var("k", "I")
    run(eng, new_state([le(101, n), le(n, MAXN), le(1, k), le(k, n)]), b, [n, k])


def ground_safe(lo, hi):
    def go(eng):
        b = find_pair(eng)
        for n in range(lo, hi + 1):
            for k in range(1, n + 1):
                run(eng, new_state([]), b, [K(n), K(k)])
    return go
