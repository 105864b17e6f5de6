"""Reference mathematics of Gauss-Legendre rules.

exact(n, k): node and weight by Newton iteration on the three-term recurrence (fixed point, 200 bits).
Series: with N = n + 1/2, u(theta) = sqrt(sin theta) P_n(cos theta) solves
u'' + (N^2 + 1/(4 sin^2)) u = 0 and sqrt(z) J_0(z) solves v'' + (1 + 1/(4 z^2)) v = 0, hence
u = v(N phi) / sqrt(N phi') where phi'^2 (1 + e/(4 phi^2)) + (e/2) {phi, theta} = 1 + e/(4 sin^2), e = 1/N^2,
and phi = theta + e phi_1 + e^2 phi_2 + ... is odd and analytic for |theta| < pi.  The zeros satisfy
phi(theta_k) = j_{0,k} / N, the weights are 2 sin(theta_k) / (N phi'(theta_k) j_{0,k} J_1(j_{0,k})^2).
Nothing here is taken from the code under test."""
import mpmath
from mpmath import mp, mpf

B = 200
ONE = 1 << B


def start(n, k):
    """first guess for theta (fixed point cos is taken by mpmath)"""
    t = mpmath.pi * (k - mpf(1) / 4) / (n + mpf(1) / 2)
    return t + mpmath.cot(t) / (8 * (n + mpf(1) / 2) ** 2) * (-1)


def exact(n, k, iters=12):
    """(node, weight), 1-based k counted from the largest node"""
    if 2 * k == n + 1:
        x = 0
    else:
        with mp.workprec(B + 20):
            x = int(mpmath.nint(mpmath.cos(mpmath.pi * (k - mpf(1) / 4) / (n + mpf(1) / 2)) *
                                (1 - mpf(n - 1) / (8 * mpf(n) ** 3)) * ONE))
    for _ in range(iters):
        p0, p1 = ONE, x
        for j in range(1, n):
            p0, p1 = p1, ((2 * j + 1) * ((x * p1) >> B) - j * p0) // (j + 1)
        if n == 0:
            return None
        om = ONE - ((x * x) >> B)
        d = (n * (p0 - ((x * p1) >> B)) << B) // om
        dx = (p1 << B) // d if x else 0
        x -= dx
        if abs(dx) < (1 << (B // 2 - 12)):
            # quadratic convergence: error now about dx^2 n^2
            w = None
            p0, p1 = ONE, x
            for j in range(1, n):
                p0, p1 = p1, ((2 * j + 1) * ((x * p1) >> B) - j * p0) // (j + 1)
            om = ONE - ((x * x) >> B)
            d = (n * (p0 - ((x * p1) >> B)) << B) // om
            with mp.workprec(B + 20):
                return mpf(x) / ONE, 2 / ((mpf(om) / ONE) * (mpf(d) / ONE) ** 2)
    raise ArithmeticError("Newton iteration for P_%d, index %d" % (n, k))


# ------------------------------------------------------------------ power series in theta, coefficients mpf
def smul(a, b, M):
    r = [mpf(0)] * M
    for i, x in enumerate(a[:M]):
        if x:
            for j in range(min(len(b), M - i)):
                y = b[j]
                if y:
                    r[i + j] += x * y
    return r


def sinv(a, M):
    r = [1 / a[0]]
    for i in range(1, M):
        s = mpf(0)
        for j in range(1, min(i, len(a) - 1) + 1):
            s += a[j] * r[i - j]
        r.append(-s * r[0])
    return r


class Trunc:
    """truncated polynomial in e whose coefficients are power series in X = theta^2"""


def mul2(a, b, R, M):
    r = [[mpf(0)] * M for _ in range(R)]
    for i in range(min(R, len(a))):
        for j in range(min(R - i, len(b))):
            p = smul(a[i], b[j], M)
            q = r[i + j]
            for h in range(M):
                q[h] += p[h]
    return r


def inv2(a, R, M):
    i0 = sinv(a[0], M)
    r = [i0]
    for i in range(1, R):
        s = [mpf(0)] * M
        for j in range(1, i + 1):
            if j < len(a):
                p = smul(a[j], r[i - j], M)
                s = [x + y for x, y in zip(s, p)]
        r.append([-x for x in smul(s, i0, M)])
    return r


_phi = {}


def phi_series(R=6, M=64):
    """g_m (m < R): phi_m(theta) = theta * g_m(theta^2), power series of length M (shorter by m terms valid)"""
    key = (R, M)
    if key in _phi:
        return _phi[key]
    with mp.workdps(90):
        ML = M + 3 * R + 4
        # 1/(4 sin^2) - 1/(4 theta^2) as a series in X
        sinc = [mpf(0)] * (ML + 2)
        f = mpf(1)
        for i in range(ML + 2):
            sinc[i] = (-1) ** i / mpmath.factorial(2 * i + 1)
        s2 = smul(sinc, sinc, ML + 2)
        is2 = sinv(s2, ML + 2)           # theta^2/sin^2 = 1 + X/3 + ...
        q = [is2[i + 1] / 4 for i in range(ML + 1)]
        g = [[mpf(1)] + [mpf(0)] * (ML - 1)]
        # unknown phi_m' from: phi'^2 + e phi'^2/(4 phi^2) + (e/2) S(phi) = 1 + e (q + 1/(4 X))
        for m in range(1, R):
            # with phi_0..phi_{m-1}: coefficient of e^m of everything but 2 phi_m'
            G = [x[:] for x in g]
            D = [[(2 * i + 1) * c for i, c in enumerate(x)] for x in G]          # phi'
            D2 = [[(2 * i + 1) * (2 * i) * c for i, c in enumerate(x)][1:] + [mpf(0)] for x in G]   # phi'' / theta
            D3 = [[(2 * i + 1) * (2 * i) * (2 * i - 1) * c for i, c in enumerate(x)][1:] + [mpf(0)] for x in G]  # phi'''
            dd = mul2(D, D, m + 1, ML)
            iG = inv2(mul2(G, G, m, ML), m, ML)
            ratio = mul2(dd[:m], iG, m, ML)       # phi'^2 theta^2 / phi^2
            iD = inv2(D, m, ML)
            t3 = mul2(D3, iD, m, ML)
            t2 = mul2(D2, iD, m, ML)
            t22 = mul2(t2, t2, m, ML)
            S = [[t3[i][h] - mpf(3) / 2 * (t22[i][h - 1] if h else 0) for h in range(ML)] for i in range(m)]
            # order e^m
            rhs = [-x for x in dd[m]]
            r1 = ratio[m - 1]
            for h in range(ML - 1):
                rhs[h] -= r1[h + 1] / 4           # (ratio - [m == 1]) / (4 X); constant term cancels with 1/(4X)
                rhs[h] -= S[m - 1][h] / 2
            if m == 1:
                for h in range(ML - 1):
                    rhs[h] += q[h]
            c0 = r1[0] - (1 if m == 1 else 0)
            assert abs(c0) < mpf(10) ** -60, (m, c0)
            ML -= 2
            g = [x[:ML] for x in g]
            g.append([rhs[h] / 2 / (2 * h + 1) for h in range(ML)])
        _phi[key] = [x[:M] for x in g]
    return _phi[key]


# ------------------------------------------------------------------ truncated series in w with numeric coefficients
def nmul(a, b, R):
    r = [mpf(0)] * R
    for i, x in enumerate(a):
        if x:
            for j in range(min(len(b), R - i)):
                r[i + j] += x * b[j]
    return r


def ninv(a, R):
    r = [1 / a[0]]
    for i in range(1, R):
        s = mpf(0)
        for j in range(1, min(i, len(a) - 1) + 1):
            s += a[j] * r[i - j]
        r.append(-s * r[0])
    return r


def taylor_at(g, t, order):
    """Taylor coefficients at t of theta * g(theta^2)"""
    out = []
    for d in range(order):
        s = mpf(0)
        for i, c in enumerate(g):
            p = 2 * i + 1
            if p >= d and c:
                s += c * mpmath.binomial(p, d) * t ** (p - d)
        out.append(s)
    return out


def ncompose(tay, delta, R):
    """sum tay[d] delta^d, delta a series without constant term"""
    r = [mpf(0)] * R
    pw = [mpf(1)] + [mpf(0)] * (R - 1)
    for d, c in enumerate(tay):
        if d >= R:
            break
        r = [x + c * y for x, y in zip(r, pw)]
        pw = nmul(pw, delta, R)
    return r


def truth(t, R=6):
    """theta_k and the weight at t = j_{0,k}/N as polynomials in e = 1/N^2:
    theta = sum F[m] e^m;  cos(theta) = sum X[m] e^m;  weight * N^2 * t * J_1^2 / 2 = sum V[m] e^m"""
    g = phi_series(R)
    tay = [taylor_at(g[m], t, R + 1) for m in range(R)]
    # solve sum_m e^m phi_m(t + delta) = t for delta
    delta = [mpf(0)] * R
    for it in range(1, R):
        tot = [mpf(0)] * R
        for m in range(R):
            c = ncompose(tay[m], delta, R - m)
            for i, x in enumerate(c):
                tot[m + i] += x
        tot[0] -= t
        # phi_0(t+delta) = t + delta
        delta = [d - x for d, x in zip(delta, tot)]
        delta[0] = mpf(0)
    dphi = [mpf(0)] * R
    for m in range(R):
        dt = [(d + 1) * tay[m][d + 1] for d in range(R)]
        c = ncompose(dt, delta, R - m)
        for i, x in enumerate(c):
            dphi[m + i] += x
    s, c = mpmath.sin(t), mpmath.cos(t)
    st = ncompose([[s, c, -s, -c][d % 4] / mpmath.factorial(d) for d in range(R)], delta, R)
    ct = ncompose([[c, -s, -c, s][d % 4] / mpmath.factorial(d) for d in range(R)], delta, R)
    F = delta[:]
    F[0] = t
    V = nmul(st, ninv(dphi, R), R)
    return F, ct, V


def asym(n, k, R=6):
    """(node, weight) from the series; R terms.  For n > 100 the error is below 1e-20"""
    with mp.workdps(50):
        if 2 * k > n + 1:
            x, w = asym(n, n + 1 - k, R)
            return -x, w
        N = n + mpf(1) / 2
        j, b = j0(k)
        F, X, V = truth(j / N, R)
        e = 1 / N ** 2
        x = sum(c * e ** m for m, c in enumerate(X))
        w = 2 * sum(c * e ** m for m, c in enumerate(V)) / (N * j * b)
        return x, w


# ------------------------------------------------------------------ zeros of J_0
_j0 = {}
_mc = {}


def bessel_series(R=16):
    """modulus-phase expansion: coefficients a_m of theta'(x) = sum a_m x^{-2m} (exact rationals)"""
    if R in _mc:
        return _mc[R]
    from fractions import Fraction as Fr
    # pi x M^2 / 2 = sum (1.3..(2m-1))/(2.4..2m) prod_{j<=m} (mu - (2j-1)^2) / (2x)^{2m}, mu = 0
    c = [Fr(1)]
    for m in range(1, R):
        c.append(c[-1] * Fr(2 * m - 1, 2 * m) * (-(2 * m - 1) ** 2) / 4)
    # theta' = 2 / (pi x M^2) = 1 / sum
    a = [Fr(1)]
    for i in range(1, R):
        a.append(-sum(c[j] * a[i - j] for j in range(1, i + 1)))
    _mc[R] = a
    return a


def j0_asym(k, R=14):
    """(j_{0,k}, J_1(j_{0,k})^2) from the asymptotic expansions (k >= 15 or so); k real"""
    a = bessel_series(R + 2)
    beta = (k - mpf(1) / 4) * mpmath.pi
    # theta(x) - (x - pi/4) = -sum_{m>=1} a_m x^{1-2m}/(2m-1); zero: x + sum_{m>=1} -a_m x^{1-2m}/(2m-1) = beta
    x = beta
    for _ in range(60):
        s = mpf(0)
        for m in range(1, R):
            s += mpf(a[m].numerator) / a[m].denominator * x ** (1 - 2 * m) / (2 * m - 1)
        y = beta + s
        if abs(y - x) < abs(x) * mpf(10) ** (-mp.dps + 3):
            x = y
            break
        x = y
    d = sum(mpf(a[m].numerator) / a[m].denominator * x ** (-2 * m) for m in range(R))
    return x, 2 * d / (mpmath.pi * x)


def j0(k):
    if k > 400:
        return j0_asym(k, 12)
    if k not in _j0:
        with mp.workdps(60):
            x = mpmath.pi * (k - mpf(1) / 4)
            x = x + 1 / (8 * x) - mpf(31) / (384 * x ** 3)
            for _ in range(12):
                d = mpmath.besselj(0, x) / -mpmath.besselj(1, x)
                x -= d
                if abs(d) < mpf(10) ** -35:
                    break
            _j0[k] = (x, mpmath.besselj(1, x) ** 2)
    return _j0[k]
