"""The crate's gamma function against the gamma function, for every argument whose value is representable."""
from legspec import *

XMAX = Fr(17161, 100)       # gamma(171.62) overflows
GTOL = mpf(10) ** -14
NG = 64


def f64_to_f64(d):
    T = d["types"]
    out = []
    for b in d["bodies"]:
        bd = b.get("body")
        if bd and bd["argc"] == 1 and b["kind"] != "Closure" and not b.get("impl_trait"):
            if T[bd["locals"][1]]["s"] == "f64" and T[bd["locals"][0]]["s"] == "f64":
                out.append(b)
    return out


def find_gamma(d):
    """the function of one number that has the values of the gamma function to three digits at some points"""
    import sym
    for b in f64_to_f64(d):
        try:
            good = 0
            for t in (Fr(3, 10), Fr(17, 10), Fr(52, 10), Fr(4), Fr(121, 10)):
                rs = run(sym.Engine(d, {}), new_state([]), b, [K(t)])
                good += len(rs) == 1 and abs(logic.Env({}).ev(rs[0][1]) / mpmath.gamma(mpf(t.numerator) / t.denominator) - 1) < 1e-3
            if good >= 4:
                return b["path"]
        except (Unsupported, logic.NumErr, KeyError, IndexError, TypeError, ValueError, ZeroDivisionError, AttributeError):
            continue
    return None


def poly_coefs(p, xi):
    """coefficients of a polynomial in the variable xi alone, or None"""
    cs = {}
    for m, c in p.t.items():
        e = 0
        c = mpf(c.numerator) / c.denominator
        for a, k in m:
            if a == xi and k == int(k) and k > 0:
                e += int(k)
            elif a in (T_.PI_ID, T_.E_ID):
                c *= (mpmath.pi if a == T_.PI_ID else mpmath.e) ** int(k)
            else:
                return None
        cs[e] = cs.get(e, 0) + c
    d = max(cs)
    return [cs.get(i, mpf(0)) for i in range(d, -1, -1)]


def cev(p, xi, z):
    """value at a complex point"""
    r = mpmath.mpc(0)
    for m, c in p.t.items():
        t = mpmath.mpc(c.numerator) / c.denominator
        for a, e in m:
            k = ATOMS[a]
            if a == xi:
                b = z
            elif a in (T_.PI_ID, T_.E_ID):
                b = mpmath.pi if a == T_.PI_ID else mpmath.e
            elif k.kind == "poly":
                b = cev(k.args[0], xi, z)
            elif k.name in ("sin", "cos", "sqrt"):
                b = getattr(mpmath, k.name)(cev(k.args[0], xi, z))
            elif k.name == "pow":
                b = mpmath.power(cev(k.args[0], xi, z), cev(k.args[1], xi, z))
            else:
                raise Unsupported("complex value of %s" % (k.name,))
            t *= b ** int(e)
        r += t
    return r


def no_zero(p, xi, lo, hi):
    """an analytic function has no zero inside the ellipse: its values along the boundary do not wind around 0"""
    if not analytic(p, xi, lo, hi):
        return False
    pts, tot = 240, mpf(0)
    f = []
    with mp.workdps(20):
        for i in range(pts):
            u = 2 * mpmath.expjpi(mpf(2) * i / pts)
            f.append(cev(p, xi, (lo + hi) / 2 + (hi - lo) / 4 * (u + 1 / u)))
        for i in range(pts):
            if f[i] == 0:
                return False
            d = mpmath.arg(f[(i + 1) % pts] / f[i])
            if abs(d) > mpf("0.7"):
                return False
            tot += d
    return abs(tot) < 1


def far(p, xi, lo, hi):
    """the zeros of the polynomial stay outside the ellipse of parameter 2 around [lo, hi]"""
    cs = poly_coefs(p, xi)
    if cs is None:
        return no_zero(p, xi, lo, hi)
    if len(cs) == 1:
        return cs[0] != 0
    rs = [-cs[1] / cs[0]] if len(cs) == 2 else mpmath.polyroots(cs, maxsteps=200, extraprec=200)
    for r in rs:
        z = (2 * mpmath.mpc(r) - lo - hi) / (hi - lo)
        q = abs(z + mpmath.sqrt(z - 1) * mpmath.sqrt(z + 1))
        if max(q, 1 / q if q else q) < 2:
            return False
    return True


def analytic(p, xi, lo, hi, neg_ok=False):
    """no singularity of the term within the ellipse around [lo, hi] (zeros of a sine in a denominator: only at 0,
    where the gamma function has its pole)"""
    for m in p.t:
        for a, e in m:
            k = ATOMS[a]
            if a in (xi, T_.PI_ID, T_.E_ID):
                if a == xi and e < 0 and not far(A(k), xi, lo, hi):
                    return False
                continue
            if k.kind == "poly":
                if not far(k.args[0], xi, lo, hi):
                    return False
                continue
            if k.name in ("sin", "cos"):
                if not analytic(k.args[0], xi, lo, hi):
                    return False
                if e < 0 and not (k.name == "sin" and hi <= mpf("0.5") and poly_coefs(k.args[0], xi) == [mpmath.pi, mpf(0)]):
                    return False
                continue
            if k.name == "pow":
                if not far(k.args[0], xi, lo, hi) or not analytic(k.args[1], xi, lo, hi):
                    return False
                continue
            if k.name == "sqrt":
                if not far(k.args[0], xi, lo, hi):
                    return False
                continue
            return False
    return True


def cuts(outcomes, xi):
    bs = set()

    def see(c):
        if c.op in ("<", "<=", "="):
            s = c.a[0]
            if xi in s.atoms():
                r = logic.solve_linear(s, xi)
                if r is None or r.const() is None:
                    raise Unsupported("branch on %s" % show(s)[:80])
                bs.add(r.const())
            elif s.const() is None:
                raise Unsupported("branch on %s" % show(s)[:80])
        elif c.op in ("and", "or", "not"):
            for d in c.a:
                see(d)
    for s, _ in outcomes:
        for c in s.pc:
            see(c)
    return sorted(b for b in bs if 0 < b < XMAX)


def gamma_contract(path):
    def go(eng):
        b = eng.by_path[path]
        x = var("x")
        xi = next(iter(x.fv))
        rs = run(eng, new_state([lt(0, x), le(x, XMAX)]), b, [x])
        bs = cuts(rs, xi)
        pieces = []
        edges = [Fr(0)] + bs + [XMAX]
        for l, u in zip(edges, edges[1:]):
            if l == 0 and u > Fr(1, 2):
                pieces += [(l, Fr(1, 2))]
                l = Fr(1, 2)
            elif l == 0:
                pieces += [(l, u)]
                continue
            while l < u:
                m = min(2 * l, u)
                if u - m < m / 4:
                    m = u
                pieces.append((l, m))
                l = m
        shown = []
        with mp.workdps(40):
            for l, u in pieces:
                hyp = [lt(l, x), lt(x, u)]
                act = [(s, v) for s, v in rs if all(logic.entails(hyp, c) for c in s.pc)]
                if len(act) != 1:
                    raise Unsupported("path on (%s, %s)" % (l, u))
                v = act[0][1]
                lo, hi = mpf(l.numerator) / l.denominator, mpf(u.numerator) / u.denominator
                if not isinstance(v, P) or not analytic(v, xi, lo, hi):
                    raise Unsupported("result on (%s, %s) is not of a form with known singularities" % (l, u))
                us = cheb_pts(lo, hi, NG)
                vals = [logic.Env({xi: t}).ev(v) / mpmath.gamma(t) - 1 for t in us]
                sup = sum(abs(c) for c in cheb_coefs(vals)) + mpf(10) ** -18
                env = None
                if sup > GTOL:
                    i = max(range(NG), key=lambda i: abs(vals[i]))
                    t = mpf(mpmath.nstr(us[i], 8))
                    env = {"alpha": t - 1, "x": t, "n": 3}
                # no zero within the ellipse
                shown += [(ATOMS[a].args[0], hyp) for a in act[0][1].atoms() if ATOMS[a].kind == "poly"]
                numeric(eng, path, "gamma(x) for %s < x < %s" % (l, u), sup, GTOL, "Chebyshev bound (40 digits)", hyp, env, "relative error")
            for c in bs + [XMAX]:
                act = [(s, v) for s, v in rs if all(logic.entails([eq(x, K(c))], d) for d in s.pc)]
                if len(act) != 1:
                    raise Unsupported("path at %s" % c)
                t = mpf(c.numerator) / c.denominator
                err = abs(logic.Env({xi: t}).ev(act[0][1]) / mpmath.gamma(t) - 1)
                numeric(eng, path, "gamma(%s)" % c, err, GTOL, "ground evaluation (40 digits)", (), {"alpha": t - 1, "x": t, "n": 3}, "relative error")
        for o in eng.obs:
            if o.kind == "defined" and o.verdict.ok is None and o.cond.op == "not" and o.cond.a[0].op == "=":
                q = o.cond.a[0].a[0]
                away = list(o.pc) + [neg(eq(x, K(c))) for c in bs]

                def nonzero(k):
                    if k.kind == "poly":
                        return any(k.args[0] == d and logic.entails(away, conj(*hyp)) for d, hyp in shown)
                    if k.name == "sin":      # of an angle strictly between 0 and pi
                        r = k.args[0] / PI
                        return logic.entails(away, conj(lt(0, r), lt(r, 1)))
                    return k.name == "pow" or logic.entails(list(o.pc), neg(eq0(A(k))))
                if all(nonzero(ATOMS[i]) for i in T_.inv(q).atoms()):
                    o.verdict = Verdict(True, "Chebyshev bound (40 digits)")
    return go
