"""Independent oracle for Gauss rules: nodes and weights from the three-term recurrence, in
multiple precision.  Only textbook facts are used (recurrence coefficients and total mass)."""
from mpmath import mp, mpf
import mpmath


def coeffs(name, n, al=0, be=0):
    """a_0..a_{n-1}, b_1^2..b_n^2 (b[k-1] = b_k^2), mu0 of the monic recurrence"""
    al, be = mpf(al), mpf(be)
    if name == "herm":
        return [mpf(0)] * n, [mpf(k) / 2 for k in range(1, n + 1)], mpmath.sqrt(mp.pi)
    if name == "lag":
        return ([2 * k + 1 + al for k in range(n)], [k * (k + al) for k in range(1, n + 1)], mpmath.gamma(al + 1))
    if name == "leg":
        al = be = mpf(0)
    elif name == "cheb1":
        al = be = mpf(-1) / 2
    elif name == "cheb2":
        al = be = mpf(1) / 2
    s = al + be
    a = [(be - al) / (s + 2)]
    for k in range(1, n):
        a.append((be * be - al * al) / ((2 * k + s) * (2 * k + s + 2)))
    b = []
    for k in range(1, n + 1):
        if k == 1:
            b.append(4 * (1 + al) * (1 + be) / ((2 + s) ** 2 * (3 + s)))
        else:
            t = 2 * k + s
            b.append(4 * k * (k + al) * (k + be) * (k + s) / (t * t * (t + 1) * (t - 1)))
    mu = mpf(2) ** (s + 1) * mpmath.gamma(al + 1) * mpmath.gamma(be + 1) / mpmath.gamma(s + 2)
    return a, b, mu


def refine(name, n, xs, al=0, be=0, dps=40, its=60):
    """for each start x: (zero of p_n reached by Newton iteration, weight there)"""
    with mp.workdps(dps):
        a, b, mu = coeffs(name, n, al, be)
        sb = [mpmath.sqrt(v) for v in b]
        isb = [1 / v for v in sb]
        p00 = 1 / mpmath.sqrt(mu)
        out = []
        eps = mpf(10) ** (-dps + 8)
        for x0 in xs:
            x = mpf(x0)
            prev = None
            for _ in range(its):
                q0, q1 = mpf(0), p00
                d0, d1 = mpf(0), mpf(0)
                ss = mpf(0)
                for k in range(n):
                    ss += q1 * q1
                    c = x - a[k]
                    bk = sb[k - 1] if k else mpf(0)
                    q0, q1, d0, d1 = q1, (c * q1 - bk * q0) * isb[k], d1, (q1 + c * d1 - bk * d0) * isb[k]
                st = q1 / d1 if d1 else mpf(1)
                w = 1 / ss
                x2 = x - st
                if abs(st) <= eps * (1 + abs(x)):
                    x = x2
                    break
                x = x2
            out.append((x, w))
        return out


def residual(name, n, pairs, al=0, be=0, dps=40):
    """worst node error, worst relative and mass-relative weight error of a rule, with places;
    nodes must reach n distinct zeros in ascending order"""
    xs = [p[0] for p in pairs]
    r = refine(name, n, xs, al, be, dps)
    with mp.workdps(dps):
        mu = coeffs(name, 1, al, be)[2]
        wn = wr = wm = (mpf(0), -1)
        order = None
        for i, ((x, w), (z, v)) in enumerate(zip(pairs, r)):
            if x != x or w != w:
                return {"node": (mpf("inf"), i), "wrel": (mpf("inf"), i), "wmass": (mpf("inf"), i), "order": i, "zeros": r}
            wn = max(wn, (abs(mpf(x) - z), i))
            wr = max(wr, (abs(mpf(w) - v) / v, i))
            wm = max(wm, (abs(mpf(w) - v) / mu, i))
            if i and not (r[i - 1][0] < z):
                order = i
        return {"node": wn, "wrel": wr, "wmass": wm, "order": order, "zeros": r}
