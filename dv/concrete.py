"""Concrete runs of the real code against independent oracles: replay of counterexamples, and the
bounded audit of what the proofs leave out (rounding, trusted contracts)."""
import math, random
import probe as P_
from probe import fl, hexf, unpairs, Dead, Panic
import oracle
import legendre as lg
from mpmath import mp, mpf
import mpmath

EPS = 2.0 ** -52
SHORT = {"GaussLegendre": "leg", "GaussChebyshevFirstKind": "cheb1", "GaussChebyshevSecondKind": "cheb2",
         "GaussHermite": "herm", "GaussLaguerre": "lag", "GaussJacobi": "jac", "Midpoint": "mid", "Trapezoid": "trap",
         "Simpson": "simp"}
CAP = {"leg": 60000, "cheb1": 60000, "cheb2": 60000, "herm": 700, "lag": 700, "jac": 700}


FAILED = []      # commands that panicked, died or ran out of time


def ask(p, cmd, timeout=60):
    try:
        ok, s = p.ask(cmd, timeout)
    except Dead as e:
        ok, s = None, "the process died: %s" % e
    if ok is not True:
        FAILED.append("%s: %s" % (cmd, s))
    return ok, s


def calls_of(s):
    t = s.split()
    return fl(t[0]), unpairs(t[2:])


INTEGRANDS = ["scale%d" % k for k in (-900, -300, -100, -50, -20, 20, 50, 100, 300, 900)] + ["zeros", "nan", "inf", "neginf", "wild", "one", "zero"]


def another(S):
    """the integrands in turn"""
    S.turn = getattr(S, "turn", -1) + 1
    return INTEGRANDS[S.turn * 5 % len(INTEGRANDS)]


def same_value(v, ws, ys, fac, tol):
    """v is fac * sum of ws * ys up to rounding; with infinities and NaN as the arithmetic has it.  Error, or None"""
    if any(1e300 < abs(y) for y in ys if math.isfinite(y)):
        return None
    if all(math.isfinite(y) for y in ys):
        try:
            e = fac * math.fsum(w * y for w, y in zip(ws, ys))
            sc = abs(fac) * math.fsum(abs(w * y) for w, y in zip(ws, ys))
        except (OverflowError, ValueError):
            return None
        return e if math.isfinite(sc) and not abs(v - e) <= tol * sc + 1e-300 else None
    if not (math.isfinite(fac) and all(1e-200 < abs(w * fac) and 1e-200 < abs(w) and abs(fac) > 1e-100 for w in ws)):
        return None
    e = 0.0
    for w, y in zip(ws, ys):
        e += w * y
    e *= fac
    return e if not (v == e or v != v and e != e) else None


def weighted_case(S, cfg, r, mode, n, al, be, a, b):
    return weighted_one(S, cfg, r, mode, n, al, be, a, b, "hash") or weighted_one(S, cfg, r, mode, n, al, be, a, b, another(S))


def weighted_one(S, cfg, r, mode, n, al, be, a, b, f):
    """None, or what went wrong; the integrand is a pseudo-random function of its argument's bits"""
    p = S.probe(cfg)
    ok, s = ask(p, "rule %s %d %s %s" % (r, n, hexf(al), hexf(be)))
    if not ok:
        return None         # a constructor that fails is the business of other properties
    prs = unpairs(s.split()[2:])
    cmd = "int %s %d %s %s %s %s %s %s" % (r, n, hexf(al), hexf(be), mode, f, hexf(a), hexf(b))
    ok, s = ask(p, cmd)
    S.case((cfg, r, mode, n, al, be, a, b, f), {"command": cmd})
    if not ok:
        return "%s: %s" % (cmd, "panicked: " + s if ok is False else s)
    v, cs = calls_of(s)
    S.last = v, cs, (abs(b - a) + 1) * sum(abs(w * y) for (_, w), (_, y) in zip(sorted(prs), sorted(cs)))
    if any(x != x or w != w for x, w in prs):
        return None         # a rule with NaN is another property's business
    if len(cs) != len(prs):
        return "%s: %d evaluations of the integrand for %d nodes" % (cmd, len(cs), len(prs))
    bounded = r in ("leg", "cheb1", "cheb2", "jac")
    at = (lambda x: (b - a) * 0.5 * x + (a + b) * 0.5) if bounded else (lambda x: x)
    fac = (b - a) * 0.5 if bounded else 1.0
    want = sorted((at(x), w) for x, w in prs)
    got = sorted(cs)
    tol = 16 * EPS * (abs(a) + abs(b) + (0 if bounded else 1))
    for (x, _), (y, _) in zip(want, got):
        t = tol if bounded else 0.0
        if not abs(x - y) <= t:
            return "%s: the integrand is evaluated at %r, expected %r" % (cmd, y, x)
    if bounded and len({x for x, _ in want}) < len(want):
        return None
    sep = min([want[i + 1][0] - want[i][0] for i in range(len(want) - 1)] or [1])
    if bounded and sep < 3 * tol:
        return None
    e = same_value(v, [w for _, w in want], [y for _, y in got], fac, (32 + 4 * len(prs)) * EPS)
    if e is not None:
        return "%s: returned %r, the weighted sum is %r" % (cmd, v, e)
    return None


def nc_points(r, n, a, b):
    h = (b - a) / n
    if r == "mid":
        return [(a + (i + 0.5) * h, h) for i in range(n)]
    if r == "trap":
        return [(a, h / 2), (b, h / 2)] + [(a + i * h, h) for i in range(1, n)]
    return [(a, h / 6), (b, h / 6)] + [(a + i * h, h / 3) for i in range(1, n)] + [(a + (i + 0.5) * h, 2 * h / 3) for i in range(n)]


def nc_case(S, cfg, r, mode, hist, a, b):
    return nc_one(S, cfg, r, mode, hist, a, b, "hash") or nc_one(S, cfg, r, mode, hist, a, b, another(S))


def nc_one(S, cfg, r, mode, hist, a, b, f):
    n = [int(d) for d in str(hist).split(",") if d != "i"][-1]
    p = S.probe(cfg)
    if n > 200000:
        return nc_big(S, cfg, r, mode, hist, n, a, b) if f == "hash" else None
    if n > 5000 and f != "hash":
        return None
    cmd = "nc %s %s %s %s %s %s" % (r, hist, mode, f, hexf(a), hexf(b))
    ok, s = ask(p, cmd)
    S.case((cfg, r, mode, hist, a, b, f), {"command": cmd})
    if not ok:
        return "%s: %s" % (cmd, "panicked: " + s if ok is False else s)
    v, cs = calls_of(s)
    S.last = v, cs, abs(b - a) * sum(abs(y) for _, y in cs) / n
    want = sorted(nc_points(r, n, a, b))
    got = sorted(cs)
    if len(got) != len(want):
        return "%s: %d evaluations of the integrand instead of %d" % (cmd, len(got), len(want))
    tol = 32 * EPS * (abs(a) + abs(b))
    for (x, _), (y, _) in zip(want, got):
        if not abs(x - y) <= tol:
            return "%s: the integrand is evaluated at %r, expected %r" % (cmd, y, x)
    if abs(b - a) / n / 2 < 3 * tol:
        return None
    e = same_value(v, [w for _, w in want], [y for _, y in got], 1.0, (64 + 4 * n) * EPS)
    if e is not None:
        return "%s: returned %r, the composite formula gives %r" % (cmd, v, e)
    return None


def agree(S, one, tol, what):
    """one(which, f) runs one of the two computations and compares it with the mathematical formula; the
    two computations must agree: if both differ from the formula they must do so in the same way"""
    for f in ("hash", another(S)):
        S.last = None
        e0 = one(0, f)
        l0, S.last = S.last, None
        e1 = one(1, f)
        l1 = S.last
        if e0 is None and e1 is None:
            continue
        if e0 is None or e1 is None:
            return "%s: %s" % (what, e0 or e1)
        if l0 is None or l1 is None:
            if (l0 is None) != (l1 is None):
                return "%s: %s; %s" % (what, e0, e1)
            continue
        (v, cs, sc), (w, ds, sd) = l0, l1
        if len(cs) != len(ds):
            return "%s: %d evaluations of the integrand against %d" % (what, len(cs), len(ds))
        xs, ys = sorted(x for x, _ in cs), sorted(x for x, _ in ds)
        m = max([abs(x) for x in xs + ys if math.isfinite(x)] or [0])
        for x, y in zip(xs, ys):
            if not (abs(x - y) <= 64 * EPS * m or x == y or x != x or y != y):
                return "%s: the integrand is evaluated at %r against %r" % (what, x, y)
        if xs == ys and math.isfinite(v) and math.isfinite(w) and math.isfinite(sc) and max([abs(y) for _, y in cs] or [0]) < 1e150 and \
                not abs(v - w) <= tol(len(cs)) * (sc + sd + abs(v) + abs(w)) + 1e-300:
            return "%s: the results are %r and %r" % (what, v, w)
    return None


def nc_fresh(S, cfg, r, mode, hist, a, b):
    """the object with this history against a fresh one of the same degree"""
    last = [d for d in str(hist).split(",") if d != "i"][-1]
    if last == str(hist):
        hist = "%d,i,%s" % (S.rng.randint(1, 50), last)
    return agree(S, lambda k, f: nc_one(S, cfg, r, mode, last if k else hist, a, b, f), lambda n: (64 + 4 * n) * EPS,
                 "%s after %s against a fresh rule of degree %s" % (r, hist, last))


def nc_par(S, cfg, r, mode, hist, a, b):
    return agree(S, lambda k, f: nc_one(S, cfg, r, "seq" if k else "par", hist, a, b, f), lambda n: (64 + 4 * n) * EPS,
                 "%s %s: par_integrate against integrate" % (r, hist))


def weighted_par(S, cfg, r, n, al, be, a, b):
    return agree(S, lambda k, f: weighted_one(S, cfg, r, "seq" if k else "par", n, al, be, a, b, f), lambda n: (64 + 4 * n) * EPS,
                 "%s %d: par_integrate against integrate" % (r, n))


def nc_big(S, cfg, r, mode, hist, n, a, b):
    """every point of the half grid once, the weights of some of them (decided inside the probe)"""
    cmd = "ncgrid %s %s %s %s %s" % (r, hist, mode, hexf(a), hexf(b))
    ok, s = ask(S.probe(cfg), cmd, 200)
    S.case((cfg, r, mode, hist, a, b), {"command": cmd})
    if not ok:
        return "%s: %s" % (cmd, "panicked: " + s if ok is False else s)
    return None if s == "fine" else "%s: %s" % (cmd, s)


def reals(rng):
    k = rng.random()
    if k < 0.05:
        a = rng.choice([0.0, -0.0, 1.0, rng.uniform(-9, 9)])
        return a, a
    if k < 0.1:         # a short interval far from 0
        a = rng.choice([-1, 1]) * 10.0 ** rng.randint(0, 15)
        b = a + a * 2.0 ** -rng.randint(1, 52)
        return rng.choice([(a, b), (b, a)])
    if k < 0.13:
        m = 10.0 ** rng.randint(-150, 150)
        return rng.uniform(-m, m), rng.uniform(-m, m)
    k = rng.random()
    if k < 0.15:
        a, b = sorted([rng.uniform(-1, 1), rng.uniform(-1, 1)])
        return b, a
    if k < 0.3:
        return 0.0, rng.uniform(0.1, 5)
    if k < 0.4:
        return -1.0, 1.0
    if k < 0.5:
        m = 10.0 ** rng.randint(-8, 8)
        return rng.uniform(-m, m), rng.uniform(-m, m)
    return rng.uniform(-7, 7), rng.uniform(-7, 7)


def params(rng):
    k = rng.random()
    if k < 0.2:
        return rng.choice([-0.5, 0.0, 0.5, 1.0, 2.0])
    if k < 0.4:
        return rng.uniform(-0.999, 0)
    return rng.uniform(-0.9, 8)


def params_wide(rng):
    k = rng.random()
    if k < 0.25:
        return -1 + 10 ** -rng.uniform(1, 15)
    if k < 0.4:
        return rng.choice([-1, 1]) * 10 ** -rng.uniform(1, 320)
    if k < 0.6:
        return 10 ** rng.uniform(0, 2.2)
    return rng.choice([-0.5, -0.0, 0.0, 0.5]) + rng.choice([0.0, 1e-16, -1e-16, 1e-9, 5e-324])


def hint(h, name, default):
    return h.get(name, default)


def get_rule(S, cfg, r, n, al=0.0, be=0.0, timeout=90):
    """(pairs, error)"""
    cmd = "rule %s %d %s %s" % (r, n, hexf(al), hexf(be))
    ok, s = ask(S.probe(cfg), cmd, timeout)
    if not ok:
        return None, "%s(%d, %r, %r) [%s] %s" % (r, n, al, be, cmd, "panicked: " + s if ok is False else s)
    t = s.split()
    prs = unpairs(t[2:])
    if int(t[0]) != n or len(prs) != n:
        return None, "%s(%d, %r, %r): degree() is %s and there are %d pairs" % (r, n, al, be, t[0], len(prs))
    return prs, None


def gauss_case(S, cfg, r, n, al, be, prs=None):
    """nodes and weights of new(n, alpha, beta) against the recurrence in multiple precision"""
    S.case((cfg, r, n, al, be), {"rule": r, "degree": n, "alpha": al, "beta": be, "config": cfg})
    if prs is None:
        prs, e = get_rule(S, cfg, r, n, al, be)
        if e:
            return e
    what = "%s(%d, %r, %r) [%s]" % (r, n, al, be, cfg)
    for i, (x, w) in enumerate(prs):
        if not (math.isfinite(x) and math.isfinite(w)):
            return "%s: pair %d is (%r, %r)" % (what, i, x, w)
    mid = n // 2 if r == "jac" and n % 2 == 1 and n >= 3 and al != be and prs[n // 2][0] == 0.0 else None
    name = {"par_leg": "leg", "par_cheb1": "cheb1", "par_cheb2": "cheb2"}.get(r, r)
    xs = [x for x, _ in prs]
    if mid is not None:
        xs[mid] = (xs[mid - 1] + xs[mid + 1]) / 2
    ref = oracle.refine(name, n, xs, al, be)
    with mp.workdps(40):
        a, _, mu = oracle.coeffs(name, n, al, be)
        if mid is not None:
            z = sum(a) - sum(q[0] for i, q in enumerate(ref) if i != mid)
            ref[mid] = oracle.refine(name, n, [z], al, be)[0]
        big = max([abs(q[0]) for q in ref] + [mpf(1)])
        tx = float(big) * 2e-15 * (n + 10) + 1e-300
        tw = float(mu) * 4e-15 * (n + 40)
        if name == "jac" or name == "lag":
            tw *= 1 + 0.2 * (abs(al) + abs(be))
        if name == "jac":
            # 2 + alpha + beta is computed with an absolute error
            tx, tw = tx * (1 + 0.5 / (2 + al + be)), tw * (1 + 0.5 / (2 + al + be))
        for i in range(n):
            if i and not ref[i - 1][0] < ref[i][0]:
                return "%s: nodes %d and %d are not distinct ascending zeros (%r, %r)" % (what, i - 1, i, prs[i - 1][0], prs[i][0])
            x, w = prs[i]
            if i == mid:
                if abs(ref[i][0]) > tx:
                    if not S.known_finding("jacobi-odd-middle", ""):
                        return "%s: node %d is %r, the zero is %s" % (what, i, x, mpmath.nstr(ref[i][0], 17))
            elif not abs(mpf(x) - ref[i][0]) <= tx:
                return "%s: node %d is %r, the zero is %s" % (what, i, x, mpmath.nstr(ref[i][0], 17))
            if not abs(mpf(w) - ref[i][1]) <= tw:
                return "%s: weight %d is %r, the Gauss weight is %s" % (what, i, w, mpmath.nstr(ref[i][1], 17))
            if w < 0:
                return "%s: weight %d is %r" % (what, i, w)
    return None


def cheb_case(S, cfg, r, n, timeout=60):
    """closed forms of the Chebyshev rules"""
    S.case((cfg, r, n), {"rule": r, "degree": n, "config": cfg})
    prs, e = get_rule(S, cfg, r, n)
    if e:
        return e
    first = r.endswith("cheb1")
    # a slice of the indices for long rules
    ix = range(n) if n <= 3000 else sorted(set(list(range(200)) + list(range(n - 200, n)) + list(range(0, n, n // 500)) + list(range(n // 2 - 50, n // 2 + 50))))
    with mp.workdps(30):
        for k in ix:
            i = k + 1
            if first:
                x, w = -mpmath.cos((2 * i - 1) * mp.pi / (2 * n)), mp.pi / n
            else:
                x, w = -mpmath.cos(i * mp.pi / (n + 1)), mp.pi / (n + 1) * mpmath.sin(i * mp.pi / (n + 1)) ** 2
            if not abs(mpf(prs[k][0]) - x) <= 1e-15:
                return "%s(%d) [%s]: node %d is %r, closed form %s" % (r, n, cfg, k, prs[k][0], mpmath.nstr(x, 17))
            if not abs(mpf(prs[k][1]) - w) <= abs(w) * mpf(10) ** -14 + 3 * mpf(10) ** -15 / n:
                return "%s(%d) [%s]: weight %d is %r, closed form %s" % (r, n, cfg, k, prs[k][1], mpmath.nstr(w, 17))
    for k in range(1, n):
        if not prs[k - 1][0] < prs[k][0]:
            return "%s(%d) [%s]: nodes %d and %d are not ascending: %r, %r" % (r, n, cfg, k - 1, k, prs[k - 1][0], prs[k][0])
    return None


_leg = {}


def leg_exact(n, k):
    """(node, weight) of index k (1 = largest node)"""
    if 2 * k > n + 1:
        x, w = leg_exact(n, n + 1 - k)
        return -x, w
    if (n, k) not in _leg:
        _leg[n, k] = lg.exact(n, k) if n <= 3000 else lg.asym(n, k, 6 if n < 500 else 3)
    return _leg[n, k]


def leg_case(S, cfg, r, n, ks=None):
    """nodes and weights of a Legendre rule against the zeros of P_n; ks: indices from the largest node, 1-based"""
    full = ks is None
    S.case((cfg, r, n, full), {"rule": r, "degree": n, "config": cfg, "indices": "all" if full else "%d of them" % len(ks)})
    tw = 1e-14 if n <= 100 else 1e-13
    if full:
        ks = range(1, n + 1)
        prs, e = get_rule(S, cfg, r, n)
        if e:
            return e
        get = {k: prs[n - k] for k in ks}
    else:
        ks = sorted({k for k in ks if 1 <= k <= n})
        okk, s = ask(S.probe(cfg), "rulepick %s %d %s" % (r, n, ",".join(str(n - k) for k in ks)), 90)
        if not okk:
            return "%s(%d) [%s]: %s" % (r, n, cfg, s)
        t = s.split()
        if int(t[0]) != n or int(t[1]) != n:
            return "%s(%d) [%s]: degree() is %s and there are %s pairs" % (r, n, cfg, t[0], t[1])
        get = dict(zip(ks, unpairs(t[2:])))
    with mp.workdps(40):
        for k in ks:
            x, w = get[k]
            ex, ew = leg_exact(n, k)
            if not abs(mpf(x) - ex) < mpf(10) ** -15:
                return "%s(%d) [%s]: node %d from the right is %r, the zero of P_n is %s (error %s)" % (
                    r, n, cfg, k, x, mpmath.nstr(ex, 20), mpmath.nstr(abs(mpf(x) - ex), 3))
            if not abs(mpf(w) / ew - 1) < tw:
                return "%s(%d) [%s]: weight %d from the right is %r, the Gauss weight is %s (relative error %s)" % (
                    r, n, cfg, k, w, mpmath.nstr(ew, 20), mpmath.nstr(abs(mpf(w) / ew - 1), 3))
            if n <= 100:
                y, v = get[n + 1 - k] if full else (-x, w)
                if v != w or not abs(x + y) < 1e-15:
                    return "%s(%d) [%s]: pair %d and its mirror image differ: %r, %r" % (r, n, cfg, k, (x, w), (y, v))
    return None


def close_items(s1, s2):
    """the same table up to the last bits of each number"""
    a, b = s1.split(), s2.split()
    if len(a) != len(b) or a[:2] != b[:2]:
        return False
    pa, pb = unpairs(a[2:]), unpairs(b[2:])
    top = max([abs(v) for _, v in pb if v == v] or [0.0])      # sin(theta)^2 loses digits near the end points
    for (x, w), (y, v) in zip(pa, pb):
        if not (abs(x - y) <= 4 * EPS or x != x and y != y) or not (
                abs(w - v) <= 16 * EPS * math.sqrt(abs(v) * top) or w != w and v != v):
            return False
    return True


def same_rule(S, cfg, r1, n1, p1, r2, n2, p2, what, last_bits=False):
    """two constructors give bit-for-bit the same table"""
    c1 = "rule %s %d %s %s" % (r1, n1, hexf(p1[0]), hexf(p1[1]))
    c2 = "rule %s %d %s %s" % (r2, n2, hexf(p2[0]), hexf(p2[1]))
    S.case((cfg, c1, c2), {"commands": [c1, c2]})
    o1, s1 = ask(S.probe(cfg), c1)
    o2, s2 = ask(S.probe(cfg), c2)
    if o1 is not True or o2 is not True:
        return "%s: %s / %s [%s]" % (what, s1 if o1 is not True else "", s2 if o2 is not True else "", cfg)
    if s1 != s2 and not (last_bits and close_items(s1, s2)):
        a, b = s1.split(), s2.split()
        k = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
        return "%s: `%s` and `%s` [%s] differ at item %d" % (what, c1, c2, cfg, k - 2)
    return None


def params_case(S, cfg, r, n, ps):
    cmd = "params %s %d %s" % (r, n, " ".join(hexf(p) for p in ps) if not r.startswith("jac_") else "")
    S.case((cfg, cmd), {"command": cmd})
    ok, s = ask(S.probe(cfg), cmd)
    if not ok:
        return "%s [%s]: %s" % (cmd, cfg, s)
    got = [fl(t) for t in s.split()]
    if got != list(ps):
        return "%s [%s]: reports parameters %r instead of %r" % (cmd, cfg, got, list(ps))
    return None


def order_case(S, cfg, r, n, al=0.0, be=0.0):
    """exactly n pairs, ascending, inside the interval"""
    S.case((cfg, r, n, al, be), {"rule": r, "degree": n, "alpha": al, "beta": be, "config": cfg})
    prs, e = get_rule(S, cfg, r, n, al, be)
    if e:
        return e
    what = "%s(%d, %r, %r) [%s]" % (r, n, al, be, cfg)
    xs = [x for x, _ in prs]
    if any(x != x for x in xs):
        return "%s: NaN node" % what
    for i in range(1, n):
        if not xs[i - 1] <= xs[i]:
            if r == "jac" and n % 2 == 1 and al != be and n // 2 in (i - 1, i) and xs[n // 2] == 0.0 and \
                    S.known_finding("jacobi-odd-middle", ""):
                continue
            return "%s: nodes %d and %d are not ascending: %r, %r" % (what, i - 1, i, xs[i - 1], xs[i])
    base = r.replace("par_", "").split("_")[0]
    if base in ("leg", "cheb1", "cheb2", "jac"):
        t = 1e-14 + (4e-15 / (2 + al + be) if base == "jac" else 0)      # alpha + beta + 2 cancels
        if xs and (xs[0] < -1 - t or xs[-1] > 1 + t):
            return "%s: nodes outside [-1, 1]: %r, %r" % (what, xs[0], xs[-1])
    if base == "lag" and xs[0] < -1e-13 * (n + 1 + abs(al)):
        return "%s: node %r is not positive" % (what, xs[0])
    if base == "lag" and not xs[0] > 0 and (al + 1) / n > 1e-12 * (n + 1 + abs(al)):     # the sum of 1 / x is n / (alpha + 1)
        return "%s: node %r is not positive, it is above (alpha + 1) / n" % (what, xs[0])
    return None


def views_case(S, cfg, r, n, al, be, seed, rounds):
    """every view and iterator of one rule against a double-ended queue, random call sequences"""
    S.case((cfg, "views", r, n, seed), {"rule": r, "degree": n, "rounds": rounds, "config": cfg})
    a = ask(S.probe(cfg), "views %s %d %r %r %d %d" % (r, n, al, be, seed, rounds))
    return None if a == (True, "fine") else "views %s(%d) [%s]: %s" % (r, n, cfg, a[1])


def ncviews_case(S, cfg, r, hist, seed):
    S.case((cfg, "ncviews", r, hist, seed), {"rule": r, "history": hist, "config": cfg})
    a = ask(S.probe(cfg), "ncviews %s %s %d" % (r, hist, seed))
    last = [d for d in hist.split(",") if d != "i"][-1]
    return None if a == (True, last) else "views %s after %s [%s]: %s" % (r, hist, cfg, a[1])
