"""The checks, one per property."""
import os, time
from specs import *
from concrete import *
import concrete
import contracts as ct
import fpspecs as fs
import gammaspec as gs
import logic
import legspec as ls
import legendre as lg
import rounding as rn

CHECKS = {}
CFGS = ("all", "default")


def check(pid, level="proof"):
    def d(f):
        CHECKS[pid] = f
        import session
        session.LEVELS[pid] = level
        return f
    return d


def modes(cfg):
    return ("seq", "par") if cfg == "all" else ("seq",)


def verdict(S, bad, replayable=lambda h: True):
    """bad: failing concrete cases [(text, command-ish)]; refuted obligations that no concrete run
    can reach are reported without an input"""
    if S.only_failures:     # wrong values are the business of the other properties
        bad = ["the real code does not return: " + t for t in concrete.FAILED if "MISMATCH" not in t]
    for t in bad:
        S.violation(t, {"failing_case": t, "refuted": [o.where + ": " + o.text + " -- " + o.verdict.detail for _, o in S.refuted()[:5]]}, True)
    if not bad:
        for u, o in S.refuted():
            vals = {}
            if o.verdict.env is not None:
                for a, v in o.verdict.env.v.items():
                    if isinstance(ATOMS[a].name, str):
                        vals[ATOMS[a].name] = float(v)
            if o.verdict.env is not None and not replayable(vals):
                S.violation("obligation %s of %s fails: %s" % (o.text, o.where, o.verdict.detail[:300]),
                            {"obligation": o.text, "where": o.where, "verifier": o.verdict.detail, "values": vals}, False)
                return


def nlist(S, quick, thorough):
    return quick if S.tier == "quick" else thorough


# ---------------------------------------------------------------------- C02
ROUNDING = ["rounding is bounded for n <= 2^50 in the standard model of floating-point arithmetic (relative error 2^-53 per operation, 2^-52 for "
            "sin and cos; no underflow); enclosures are widened by 1e-13 for numpy's own rounding"]


@check("C02")
def c02(S):
    with S.proofs():
        for cfg in CFGS:
            for s in GAUSS:
                for m in ("integrate",) + (("par_integrate",) if cfg == "all" else ()):
                    S.unit(cfg, "%s::%s" % (s, m), weighted_integrate(s, m))
                    if s in BOUNDED:
                        S.unit(cfg, "%s::%s: rounding of the mapped nodes" % (s, m), rn.sample_points(s, m, 2e-15))
    S.assumed += ROUNDING
    S.audit["rules"].append("integrands that are pseudo-random functions of the bits of their argument; every rule, mode, "
                            "configuration; degrees listed, random parameters and bounds; recorded evaluation points")
    bad = S.bad
    ns = nlist(S, [1, 2, 3, 5, 8, 17, 64, 101, 129], [1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 31, 64, 100, 101, 127, 128, 129, 200, 256, 257])
    for cfg in CFGS:
        for s in GAUSS:
            r = SHORT[s]
            for mode in modes(cfg):
                for n in ns:
                    bad.append(weighted_case(S, cfg, r, mode, n, params(S.rng), params(S.rng), *reals(S.rng)))
                for _ in range(nlist(S, 20, 200)):
                    bad.append(weighted_case(S, cfg, r, mode, S.rng.randint(1, 12), params_wide(S.rng), params_wide(S.rng), *reals(S.rng)))
                bad.append(weighted_case(S, cfg, r, mode, S.rng.randint(1, 12), 0.3, -0.2, 1.5, 1.5))
                for n in nlist(S, [300], [300, 420, 600]) if r in ("lag", "herm") else []:     # some weights are zero
                    bad.append(weighted_case(S, cfg, r, mode, n, 0.0, 0.0, *reals(S.rng)))
                for h in S.hints[:60]:
                    n = int(h.get("n", 3))
                    if 1 <= n <= CAP[r]:
                        bad.append(weighted_case(S, cfg, r, mode, n, h.get("alpha", 0.3), h.get("beta", -0.2),
                                                 h.get("a", -1.0), h.get("b", 2.0)))
                    bad.append(weighted_case(S, cfg, r, mode, S.rng.randint(1, 20), 0.3, -0.2, h.get("a", -1.0), h.get("b", 2.0)))
                for n in S.degrees(CAP[r], 30):
                    bad.append(weighted_case(S, cfg, r, mode, n, 0.3, -0.2, *reals(S.rng)))
                for v in S.values(-1e9, 1e9):
                    bad.append(weighted_case(S, cfg, r, mode, S.rng.randint(1, 20), 0.3, -0.2, v, v + S.rng.uniform(-2, 2)))
    verdict(S, [b for b in bad if b], lambda h: h.get("n", 1) <= 300)


# ---------------------------------------------------------------------- C04
def nc_audit(S, hists, bad, case=nc_case):
    for cfg in CFGS:
        for s in NC:
            r = SHORT[s]
            for mode in modes(cfg):
                for hst in hists:
                    bad.append(case(S, cfg, r, mode, hst, *reals(S.rng)))
                for _ in range(nlist(S, 25, 300)):
                    bad.append(case(S, cfg, r, mode, S.rng.randint(1, 60), *reals(S.rng)))
                for ab in ((0.0, 0.0), (2.5, 2.5), (1e15, 1e15 + 1)):
                    bad.append(case(S, cfg, r, mode, S.rng.randint(3, 60), *ab))
                for h in S.hints[:40]:
                    n = int(h.get("n", 3))
                    if "m" in h and 1 <= int(h["m"]) <= 10 ** 6 and n <= 10 ** 6:
                        bad.append(case(S, cfg, r, mode, "%d,i,%d" % (n, int(h["m"])), h.get("a", -1.0), h.get("b", 2.0)))
                    if 1 <= n <= 10 ** 7:
                        bad.append(case(S, cfg, r, mode, n, h.get("a", -1.0), h.get("b", 2.0)))
                nc_hints(S, cfg, s, mode, bad, case)


def nc_hints(S, cfg, s, mode, bad, case=nc_case):
    """degrees around the constants of functions whose proof failed; the very large ones last"""
    S.mine()
    r = SHORT[s]
    for n in S.degrees(200000, 40):
        bad.append(case(S, cfg, r, mode, n, *reals(S.rng)))
    for n in S.degrees(200000, 8):          # histories around the same constants
        for m in (n - 1, n + 1, 2 * n, S.rng.randint(1, 2 * n)):
            if m >= 1:
                bad.append(case(S, cfg, r, mode, "%d,i,%d" % (n, m), *reals(S.rng)))
    und = any(s in u["name"] and (("par_" in u["name"]) == (mode == "par") or "integrate" not in u["name"])
              for u in S.units if u["status"] != "ok" or any(o.verdict.ok is not True for o in u["obs"]))
    if und or os.environ.get("DV_MINE"):
        for n in S.degrees(2 ** 32 - 1 if mode == "par" else 10 ** 8, 6, 200001):
            bad.append(case(S, cfg, r, mode, n, *S.rng.choice([(0.0, 1.0), (-1.0, 2.0), (3.0, -0.5)])))


@check("C04")
def c04(S):
    with S.proofs():
        for cfg in CFGS:
            for s in NC:
                for m in ("integrate",) + (("par_integrate",) if cfg == "all" else ()):
                    S.unit(cfg, "%s::%s" % (s, m), nc_integrate(s, m))
                    S.unit(cfg, "%s::%s: rounding of the sample points" % (s, m), rn.sample_points(s, m, 4e-15))
        for s, d in (("Midpoint", 1), ("Trapezoid", 1), ("Simpson", 3)):
            S.unit("all", "lemma: exactness of the composite %s formula" % s, nc_degree_lemma(s, d))
    S.assumed += ROUNDING
    S.audit["rules"].append("degrees 1..1000 and one above 65536, bounds in either order, recorded evaluation points")
    bad = S.bad
    nc_audit(S, nlist(S, [1, 2, 3, 4, 7, 16, 33, 100, 1000, 1025, 70001, 300001],
                      list(range(1, 40)) + [64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 4097, 65535,
                                            65536, 65537, 70001, 300001, 2 ** 24 + 1]), bad)
    verdict(S, [b for b in bad if b], lambda h: h.get("n", 1) <= 10 ** 7)


# ---------------------------------------------------------------------- C11
@check("C11")
def c11(S):
    with S.proofs():
        for cfg in CFGS:
            for s in NC:
                S.unit(cfg, "%s::{new, degree, change_degree}" % s, nc_new(s))
                S.unit(cfg, "%s: iter, into_iter, degree" % s, rule_views(s))
                S.unit(cfg, "%s::iter: iterator methods" % s, iterator_contract(s, VIEWS[0]))
    bad = S.bad
    nc_audit(S, ["1,2", "3,i,5", "5,i,3", "7,2,i,9", "100,1", "1,1000,i,3,i,17", "1,300001", "300001,i,7"] +
             ["%d,i,%d" % (S.rng.randint(1, 60), S.rng.randint(1, 60)) for _ in range(nlist(S, 25, 200))], bad, nc_fresh)
    views_audit(S, bad, ())
    verdict(S, [b for b in bad if b])


def contracts_for(S, cfg, *names, rules=()):
    c = ct.Contracts(S.dump(cfg))
    for nm in names:
        getattr(c, nm)()
    for r in rules:
        c.rule_new(r)
    for path, text, ok, det in c.report:
        S.contract_report.append({"config": cfg, "function": path, "contract": text, "status": ok if isinstance(ok, str)
                                  else ("discharged" if ok else "not proved, callee inlined"), "detail": det})
    if c.obs:
        u = {"cfg": cfg, "name": "golub_welsch (callee contract)", "obs": c.obs, "status": "ok", "detail": "", "wall": 0.0}
        S.units.append(u)
    S.trusted |= getattr(c, "trusted", set())
    S.executed.setdefault(cfg, set()).update(getattr(c, "executed", set()))
    return c


# ---------------------------------------------------------------------- C10
def views_audit(S, bad, rules):
    S.audit["rules"].append("views and iterators of real rules against VecDeque under random call sequences")
    hs = S.degrees(20000, 24)
    for cfg in CFGS:
        for r in rules:
            for n in nlist(S, [1, 2, 3, 4, 5, 8, 13, 40], list(range(1, 60)) + [100, 101, 128]) + hs:
                if n > 700 and r in ("herm", "lag", "jac"):
                    continue
                bad.append(views_case(S, cfg, r, n, 0.4, -0.3, S.rng.randrange(2 ** 31), nlist(S, 12, 60) if n <= 300 else 1))
        for r in ("mid", "trap", "simp"):
            for h in nlist(S, ["1", "2", "3", "7", "40", "5,9", "9,i,4", "4000000000", "4294967295", "65536"],
                           [str(i) for i in range(1, 65)] + ["5,9", "9,i,4", "4000000000", "4294967295", "65536", "65537,i,3"]) + \
                    [str(n) for n in S.degrees(2 ** 32 - 1)]:
                bad.append(ncviews_case(S, cfg, r, h, S.rng.randrange(2 ** 31)))


@check("C10")
def c10(S):
    with S.proofs():
        for cfg in CFGS:
            for s in GAUSS + NC:
                S.unit(cfg, "%s: views" % s, rule_views(s))
                for v in (VIEWS if s in GAUSS else VIEWS[:1]):
                    S.unit(cfg, "%s::%s: iterator methods" % (s, v[0]), iterator_contract(s, v))
    bad = S.bad
    views_audit(S, bad, [SHORT[s] for s in GAUSS] + ["jac_leg"])
    verdict(S, [b for b in bad if b], lambda h: h.get("n", 1) <= 200)


# ---------------------------------------------------------------------- C03
@check("C03")
def c03(S):
    with S.proofs():
        c = contracts_for(S, "all", "legendre_pair")
        for s in GAUSS[:3]:
            S.unit("all", "%s::par_new" % s, par_new_equals_new(s), c.table)
        for s in GAUSS + NC:
            S.unit("all", "%s::par_integrate" % s, par_integrate_equals(s))
        S.assumed.append("rayon's collect keeps the order of an indexed parallel iterator, sum adds every item once (in any "
                         "order), join runs both closures once")
    S.audit["rules"].append("par_new against new up to the last bits of each number; par_integrate with recorded evaluation points")
    bad = S.bad
    ns = nlist(S, [1, 2, 3, 4, 7, 16, 50, 99, 100, 101, 102, 128, 1000, 4097, 20011],
               list(range(1, 140)) + [255, 256, 257, 1000, 1024, 4097, 20011, 65537, 200003])
    for r in ("leg", "cheb1", "cheb2"):
        for n in ns + S.degrees(10 ** 5):
            bad.append(same_rule(S, "all", "par_" + r, n, (0, 0), r, n, (0, 0), "par_new differs from new", True))
    for s in GAUSS:
        r = SHORT[s]
        for n in nlist(S, [1, 2, 5, 33, 130], [1, 2, 3, 5, 8, 17, 33, 64, 100, 130, 257]) + \
                S.degrees(CAP[r], 20):
            bad.append(weighted_par(S, "all", r, n, params(S.rng), params(S.rng), *reals(S.rng)))
    for s in NC:
        for n in nlist(S, [1, 2, 3, 10, 1000, 70001], [1, 2, 3, 4, 5, 10, 100, 1000, 4096, 4097, 70001, 300001]) + \
                [n for n in S.degrees(200000, 20)]:
            bad.append(nc_par(S, "all", SHORT[s], "par", n, *reals(S.rng)))
        nc_hints(S, "all", s, "par", bad, nc_par)
    verdict(S, [b for b in bad if b], lambda h: h.get("n", 1) <= 10 ** 5)


# ---------------------------------------------------------------------- C05
@check("C05")
def c05(S):
    with S.proofs():
        for cfg in CFGS:
            for s in GAUSS[1:3]:
                for m in ("new",) + (("par_new",) if cfg == "all" else ()):
                    S.unit(cfg, "%s::%s" % (s, m), chebyshev_closed_form(s, m))
                    S.unit(cfg, "%s::%s ascending" % (s, m), chebyshev_ascending(s, m))
                    S.unit(cfg, "%s::%s rounding" % (s, m), rn.chebyshev_rounding(s, m, 2e-15, 5e-15))
        S.assumed += ROUNDING
        S.assumed.append("cos decreases on [0, pi]; the closed forms are the Gauss rules of the Chebyshev weights (textbook)")
    S.audit["rules"].append("constructors against the closed forms in 30 digits, degrees listed in samples")
    bad = S.bad
    ns = nlist(S, [1, 2, 3, 4, 5, 10, 33, 100, 101, 1001, 30000],
               list(range(1, 60)) + [64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 1000, 1001, 4096, 30000, 100003])
    ns += S.degrees(10 ** 5)
    for cfg in CFGS:
        for r in ("cheb1", "cheb2") + (("par_cheb1", "par_cheb2") if cfg == "all" else ()):
            for n in ns:
                bad.append(cheb_case(S, cfg, r, n))
    verdict(S, [b for b in bad if b], lambda h: h.get("n", 1) <= 10 ** 5)


# ---------------------------------------------------------------------- C06
@check("C06")
def c06(S):
    with S.proofs():
        al, be = var("alpha"), var("beta")
        for cfg in CFGS:
            c = contracts_for(S, cfg, "golub_welsch", "gamma", rules=GAUSS[:3])
            found = []
            if getattr(c, "gamma_path", None):
                S.unit(cfg, "%s: the gamma function" % c.gamma_path, gs.gamma_contract(c.gamma_path))
            S.unit(cfg, "GaussHermite::new", gauss_rule("GaussHermite", (), found), c.table)
            S.unit(cfg, "GaussLaguerre::new", gauss_rule("GaussLaguerre", (al,), found), c.table)
            S.unit(cfg, "GaussJacobi::new", gauss_rule("GaussJacobi", (al, be), found), c.table, 150)
            for k, t in found:
                if not S.known_finding("jacobi-odd-middle", t):
                    S.violation("GaussJacobi::new: " + t, {"what": t}, True)
        S.assumed += [
            "nalgebra's symmetric_eigen returns the eigenvalues and orthonormal eigenvectors of a real symmetric matrix",
            "Golub-Welsch theorem: eigenvalues of the Jacobi matrix and mass times squared first components form the Gauss rule; "
            "recurrence coefficients of the Hermite, Laguerre and Jacobi polynomials (textbook)",
            "a symmetric tridiagonal matrix of odd order with zero diagonal has middle eigenvalue 0",
            "gamma: a Chebyshev interpolant of degree 63 represents a function analytic in the ellipse of parameter 2 (error below 1e-18); "
            "that denominators have no zero there is read off their winding number on 240 points",
        ]
    S.audit["rules"].append("constructors against the three-term recurrence in 40 digits (Newton-refined zeros, Christoffel "
                            "weights); random parameters, degrees up to 60 (thorough: 200)")
    bad = S.bad
    rng = S.rng
    todo = []
    for r in ("herm", "lag", "jac"):
        for n in nlist(S, [1, 2, 3, 4, 5, 6, 9, 14, 21, 40], [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 17, 21, 32, 40, 41, 64, 65, 100, 101]):
            for _ in range(1 if r == "herm" else nlist(S, 4, 12)):
                todo.append((r, n, params(rng), params(rng)))
    for n in nlist(S, [1, 2, 3, 6, 13], list(range(1, 20))):
        d = rng.uniform(0.05, 0.45)
        for p in ((0.0, 0.0), (-.5, -.5), (.5, .5), (-.5, .5), (.5, -.5), (0.0, -.5), (1.0, 1.0), (-d, d - 1), (0.0, 1.0), (1.0, 0.0),
                  (-.5, 0.0), (2.0, 2.0), (-.25, -.25), (d, -d), (25.5, 3.0), (0.0, 60.0)):
            todo.append(("jac", n) + p)
            if n < 7:
                todo.append(("lag", n) + p)
    for h in S.hints[:30]:
        n = int(h.get("n", 4))
        for m in {n if n <= 120 else 120, 4, 5}:
            if 1 <= m:
                for r in ("herm", "lag", "jac"):
                    a1, b1 = h.get("alpha", 0.3), h.get("beta", -0.2)
                    if -1 < a1 < 170 and -1 < b1 < 170 and a1 + b1 < 169:
                        todo.append((r, m, a1, b1))
    for n in nlist(S, [90], [90, 150, 200]):
        for r in ("herm", "lag", "jac"):
            todo.append((r, n, 0.7, -0.3))
    for v in (61.3, 100.5, 119.25, 150.7, 169.9) + tuple(rng.uniform(60, 170) for _ in range(nlist(S, 4, 40))):
        todo += [("lag", rng.choice((2, 3, 4, 7)), v, 0.0)]
        w = rng.uniform(-0.9, 169 - v) if v < 168 else -0.5
        todo += [("jac", rng.choice((2, 4, 6)), v, w), ("jac", rng.choice((2, 4, 6)), w, v)]
    for v in S.values(60, 170, 20):
        todo += [("lag", 3, v, 0.0), ("jac", 2, v, 0.3), ("jac", 2, 0.3, v)]
    for v in S.values(-1, 60, 40):
        for n in (2, 5, 6):
            todo += [("lag", n, v, 0.0), ("jac", n, v, 0.3), ("jac", n, 0.3, v), ("jac", n, v, v)]
    for v in range(0, 170, 1):             # whole and half numbers over the whole range of gamma
        todo += [("lag", 2, float(v), 0.0), ("lag", 1, v + .5, 0.0)]
        w = rng.randint(0, 169 - v) + rng.choice((0.0, .5, -.5))
        if v + w < 169:
            todo += [("jac", rng.choice((1, 2)), float(v), w), ("jac", 2, w, float(v))]
    for _ in range(nlist(S, 12, 100)):     # both parameters close to -1
        v, w = (-1 + 10 ** -rng.uniform(1, 9) for _ in "ab")
        todo += [("jac", n, v, x) for n in (2, 3, 4, 6) for x in (v, w)]
    few = [v for v in S.values(-1, 60, 60) if abs(v * 64) == int(abs(v * 64))][:8]
    todo += [("jac", 4, v, w) for v in few for w in few]
    for _ in range(nlist(S, 16, 160)):     # parameters that nearly coincide, or nearly cancel
        v, e = params(rng), rng.choice((1, -1)) * 10 ** rng.uniform(-12, -1)
        todo += [("jac", rng.choice((4, 6)), v, max(v + e, -.999)), ("jac", 4, max(rng.choice((0, -.5, .5)) + e, -.999), rng.choice((0.0, -.5, .5)))]
        if -1 < e - v:
            todo += [("jac", 4, v, e - v)]
    for n in S.degrees(700, 24):
        for r in ("herm", "lag", "jac"):
            todo.append((r, n, 0.7, -0.3))
    for i, (r, n, a1, b1) in enumerate(todo):
        bad.append(gauss_case(S, CFGS[i % 2] if n <= 30 else "all", r, n, a1, b1))
    verdict(S, [b for b in bad if b], lambda h: h.get("n", 1) <= 120 and h.get("alpha", 0) < 170 and h.get("beta", 0) < 170)


# ---------------------------------------------------------------------- C07
@check("C07")
def c07(S):
    with S.proofs():
        al, be = var("alpha"), var("beta")
        for cfg in CFGS:
            c = contracts_for(S, cfg, "golub_welsch", "gamma", rules=GAUSS[:3])
            S.unit(cfg, "From<...> for GaussJacobi", jacobi_conversions)
            S.unit(cfg, "GaussJacobi::new (delegation, parameters)", jacobi_new_delegates((al, be)), c.table, 150)
            S.unit(cfg, "GaussLaguerre::new (parameter)", laguerre_keeps_alpha(al), c.table)
    S.audit["rules"].append("delegation bit for bit, conversions, parameter getters; degrees listed in samples")
    bad = S.bad
    rng = S.rng
    ns = nlist(S, [1, 2, 3, 4, 5, 17, 100, 101, 300], list(range(1, 130)) + [200, 300, 1001])
    ns += S.degrees(20000)
    for cfg in CFGS:
        for n in ns:
            for d, ps in (("leg", (0.0, 0.0)), ("cheb1", (-.5, -.5)), ("cheb2", (.5, .5))):
                for q in [ps] + ([(-0.0, 0.0), (0.0, -0.0), (-0.0, -0.0)] if d == "leg" and n < 20 else []):
                    bad.append(same_rule(S, cfg, "jac", n, q, d, n, (0, 0), "Jacobi with the parameters of another rule differs from it"))
                bad.append(same_rule(S, cfg, "jac_" + d, n, (0, 0), d, n, (0, 0), "conversion changes the table"))
                bad.append(params_case(S, cfg, "jac_" + d, n, ps))
            if n <= 120:
                a1, b1 = params(rng), params(rng)
                for p in ((a1, b1), (params_wide(rng), params_wide(rng)), (0.0, -0.0), (0.0, 0.5), (-.5, .5), (-.5, -.5), (.5, .5), (0.0, 0.0), (0.5, 0.0), (1.0, 1.0)):
                    bad.append(params_case(S, cfg, "jac", n, p))
                    bad.append(params_case(S, cfg, "lag", n, p[:1]))
        vs = S.values(-1, 1e6, 60)
        few = [v for v in vs if abs(v * 64) == int(abs(v * 64))][:12]
        for h in S.hints[:20] + [{"alpha": v, "beta": w} for v in vs for w in (v, 0.3)] + [{"alpha": 0.3, "beta": v} for v in vs] + \
                [{"alpha": v, "beta": w} for v in few for w in few]:
            a1, b1 = h.get("alpha", 0.3), h.get("beta", -0.2)
            if -1 < a1 < 1e6 and -1 < b1 < 1e6:
                bad.append(params_case(S, cfg, "jac", 3, (a1, b1)))
                bad.append(params_case(S, cfg, "lag", 3, (a1,)))
    verdict(S, [b for b in bad if b], lambda h: h.get("n", 1) <= 300)


# ---------------------------------------------------------------------- C12
@check("C12")
def c12(S):
    with S.proofs():
        al, be = var("alpha"), var("beta")
        for cfg in CFGS:
            c = contracts_for(S, cfg, "legendre_pair", "golub_welsch", "gamma")
            ms = ("new",) + (("par_new",) if cfg == "all" else ())
            for m in ms:
                for s in GAUSS[:3]:
                    S.unit(cfg, "%s::%s length" % (s, m), exactly_n(s, m), c.table)
                for s in GAUSS[1:3]:
                    S.unit(cfg, "%s::%s ascending" % (s, m), chebyshev_ascending(s, m))
            found = []
            c2 = contracts_for(S, cfg, "golub_welsch", "gamma", rules=GAUSS[:3])
            S.unit(cfg, "GaussHermite::new", gauss_rule("GaussHermite", (), found), c2.table)
            S.unit(cfg, "GaussLaguerre::new", gauss_rule("GaussLaguerre", (al,), found), c2.table)
            S.unit(cfg, "GaussJacobi::new", gauss_rule("GaussJacobi", (al, be), found), c2.table, 150)
            S.unit(cfg, "GaussHermite::new length", exactly_n("GaussHermite", "new"), c2.table)
            S.unit(cfg, "GaussLaguerre::new length", exactly_n("GaussLaguerre", "new", (al,)), c2.table)
            S.unit(cfg, "GaussJacobi::new length", exactly_n("GaussJacobi", "new", (al, be)), c2.table, 150)
    S.audit["rules"].append("constructors: count, order and range of the nodes")
    bad = S.bad
    rng = S.rng
    for cfg in CFGS:
        for r in ("leg", "cheb1", "cheb2") + (("par_leg", "par_cheb1", "par_cheb2") if cfg == "all" else ()):
            for n in list(range(1, nlist(S, 131, 600))) + [255, 256, 257, 1000, 2001, 30000] + \
                    S.degrees(10 ** 5):
                bad.append(order_case(S, cfg, r, n))
        for r in ("herm", "lag", "jac"):
            for n in nlist(S, [1, 2, 3, 4, 5, 10, 33, 64, 101], list(range(1, 70)) + [100, 101, 150, 200]) + \
                    S.degrees(700, 20):
                for _ in range(3 if n < 200 else 1):
                    bad.append(order_case(S, cfg, r, n, params(rng), params(rng)))
        for _ in range(nlist(S, 60, 600)):
            bad.append(order_case(S, cfg, "jac", rng.randint(1, 12), params_wide(rng), params_wide(rng)))
            bad.append(order_case(S, cfg, "lag", rng.randint(1, 6), params_wide(rng)))
        for p in ((10.0, 0.0), (0.0, 10.0), (-.5, -.5), (0.0, 0.0), (.5, .5), (1.0, 1.0), (-.75, -.25)):
            for n in (1, 2, 3, 4, 5, 9, 20):
                bad.append(order_case(S, cfg, "jac", n, *p))
                bad.append(order_case(S, cfg, "lag", n, *p))
        for _ in range(nlist(S, 40, 400)):     # nodes that lie close together
            a, b = (rng.choice([0.3, 10 ** rng.uniform(2, 12)]) for _ in "ab")
            bad.append(order_case(S, cfg, "jac", rng.randint(2, 40), a, b))
            bad.append(order_case(S, cfg, "lag", rng.randint(2, 40), a, b))
        for _ in range(nlist(S, 20, 200)):     # nodes that coincide
            a, b = 10 ** rng.uniform(12, 18), rng.choice([0.3, 10 ** rng.uniform(2, 18)])
            a, b = rng.choice([(a, b), (b, a)])
            bad.append(order_case(S, cfg, "jac", rng.randint(2, 40), a, b))
            bad.append(order_case(S, cfg, "lag", rng.randint(2, 40), a, b))
        for v in S.values(-1, 1e12):
            for a, b in ((v, v), (v, 0.3), (0.3, v)):
                bad.append(order_case(S, cfg, "jac", rng.randint(2, 20), a, b))
            bad.append(order_case(S, cfg, "lag", rng.randint(2, 20), v))
    verdict(S, [b for b in bad if b], lambda h: h.get("n", 1) <= 200)


# ---------------------------------------------------------------------- C01
def fin_values(S):
    import struct
    sp = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308,
          -1.7976931348623157e308, math.inf, -math.inf, math.nan, -0.9999999999999999, -1.0000000000000002,
          -0.9999999999999998, 1e-17, -1e-17, 1e16, 0.1, 1e300, 3.0, -0.75, 4503599627370497.5]
    bits = [struct.unpack(">Q", struct.pack(">d", x))[0] for x in sp]
    bits += [0x7ff8000000000001, 0xfff8000000000000, 0x7ff0000000000001, 0xfff4000000000000]
    r = S.rng
    for _ in range(nlist(S, 150, 4000)):
        bits.append(r.getrandbits(64))
        bits.append(struct.unpack(">Q", struct.pack(">d", r.uniform(-1.5, 1.5)))[0])
        bits.append(0xbff0000000000000 + r.randrange(-4, 5))
    return bits


def is_valid_bits(b):
    x = fs.bits_float(b)
    return math.isfinite(x) and x > -1.0


def fin_cases(S, bad, pairs):
    """the real entry points on concrete bit patterns"""
    def want(y):
        return "none" if y is None or not (math.isfinite(y) and y > -1.0) else "%016x" % struct_bits(y)
    for cfg in CFGS:
        p = S.probe(cfg)
        for bx, by in pairs:
            S.case((cfg, bx, by), {"x": "%016x" % bx, "y": "%016x" % by, "config": cfg})
            okk, s = ask(p, "fin 0x%016x 0x%016x" % (bx, by))
            x = fs.bits_float(bx)
            what = "FiniteAboveNegOneF64 [%s], x = %r (0x%016x), y = %r (0x%016x)" % (cfg, x, bx, fs.bits_float(by), by)
            if not okk:
                bad.append("%s: %s" % (what, s))
                continue
            d = dict(t.split("=", 1) for t in s.split())
            v = want(x)
            if d["new"] != v or d["try"] != v:
                bad.append("%s: new gives %s, try_from %s, expected %s" % (what, d["new"], d["try"], v))
            if d["parse"] != v and not (x != x):
                bad.append("%s: parsing its text gives %s, expected %s" % (what, d["parse"], v))
            if fs.bits_float(int(d["default"], 16)) != 0.0:
                bad.append("default is %s" % d["default"])
            if "back" in d:
                if d["back"] != v:
                    bad.append("%s: f64::from gives %s" % (what, d["back"]))
                for op in ("add", "sub", "mul", "div"):
                    w = fs.bits_float(int(d["want_" + op], 16))
                    if d[op] != want(w):
                        bad.append("%s: checked_%s gives %s, expected %s" % (what, op, d[op], want(w)))
                if d["pow"] != "none" and not is_valid_bits(int(d["pow"], 16)):
                    bad.append("%s: checked_pow gives %s" % (what, d["pow"]))
                y = fs.bits_float(by)
                if y == y and abs(y) <= 4 and y == int(y) and 0 < x < 1e50:
                    try:
                        w = x ** y
                    except OverflowError:
                        w = math.inf
                    if not 1e-300 < w < 1e300:
                        continue
                    g = None if d["pow"] == "none" else fs.bits_float(int(d["pow"], 16))
                    if g is None or abs(g - w) > 1e-13 * abs(w):
                        bad.append("%s: checked_pow gives %s, expected %r" % (what, d["pow"], w))
            if cfg == "all" and math.isfinite(x):
                okk, t = ask(p, "finde %s" % repr(x))
                if (t if okk else t) != v:
                    bad.append("deserializing %r with serde_json gives %s, expected %s" % (x, t, v))
        for text in ("abc", "", "nan", "NaN", "inf", "-inf", "infinity", "1e400", "-1e400", "-1", "-1.0000000000000001", "1.0x", "+0.25", ".5", "1e-400"):
            okk, t = ask(p, "finparse %s" % text)
            try:
                w = want(float(text)) if text == text.strip() and "_" not in text else "none"
            except ValueError:
                w = "none"
            S.case((cfg, "text", text))
            if t != w:
                bad.append("parsing %r [%s] gives %s, expected %s" % (text, cfg, t, w))
        for text in (" 1", "1 ", "1\n", "\n1", "\t1", "1\t", "\r1", "1\r\n", "1\u00a0", "\u00a01", "1\u2003", "1\x00", "\ufeff1", "1_000", "1_0.5",
                     "1f64", "1.5_f64", "0x1p3", "0x10", "0b1", "1,5", "1,000", "\uff15", "\u0665", "\u22121", "\u22120.5", "--0.5", "+-0.5", "++1", "+ 1",
                     "- 0.5", "(1)", "'1'", '"1"', "1;", "1.", "1.5.", "1e", "1e+", "1e 5", "1E5", "1e+5", "1d5", "+inf", "+nan", "Infinity",
                     "INF", "NAN", "-nan", "-0", "-0.0", "+0", "00.5", "-00.5", "1/2", "50%", "None", "true", "FiniteAboveNegOneF64(1.0)",
                     "0." + "3" * 400, "9" * 400, "-0." + "9" * 15, "-0." + "9" * 400, "5e-324", "1.7976931348623157e308", "1.7976931348623159e308"):
            okk, t = ask(p, "finparsehex %s" % text.encode().hex())
            S.case((cfg, "text", text))
            g, w = (t.split() + ["?", "?"])[:2] if okk else (t, "?")
            if g != w:
                bad.append("parsing %r [%s] gives %s, expected %s" % (text[:60], cfg, g, w))
    p = S.probe("all")
    for bx, _ in pairs:
        for cmd, key, how in (("finbytes", "zerocopy-try-from-bytes", "zerocopy::TryFromBytes::try_read_from_bytes"),
                              ("finfrombytes", "zerocopy-from-bytes", "zerocopy::FromBytes::read_from_bytes")):
            okk, t = ask(p, "%s %016x" % (cmd, bx))
            S.case((cmd, bx))
            if t != "none" and not is_valid_bits(int(t, 16)):
                if not S.known_finding(key, ""):
                    bad.append("%s of the bits 0x%016x yields a FiniteAboveNegOneF64 holding %r" % (how, bx, fs.bits_float(int(t, 16))))
            elif t != "none" and int(t, 16) != bx:
                bad.append("%s of the bits 0x%016x yields %s" % (how, bx, t))


def struct_bits(x):
    import struct
    return struct.unpack(">Q", struct.pack(">d", x))[0]


KNOWN_FIN = {("new", ""), ("get", ""), ("default", "Default"), ("try_from", "TryFrom"), ("from_str", "FromStr"), ("clone", "Clone"),
             ("deserialize", "Deserialize"), ("serialize", "Serialize")} | {(n, "") for n in fs.ARITH}


def derive_units(S, cfg, eng):
    """every other function that constructs a parameter value keeps the type invariant"""
    sites, _ = fs.construction_sites(eng)
    done = set()
    for b, how in sites.values():
        tr = (b.get("impl_trait") or "").split("<")[0]
        if tr.startswith("rkyv"):
            t = ("rkyv: archived parameter values come from archiving valid ones (reading arbitrary bytes is unsafe without "
                 "rkyv's bytecheck feature, which this crate does not enable)")
            if t not in S.assumed:
                S.assumed.append(t)
            continue
        if tr.startswith("serde"):
            continue
        if b["id"] not in done:
            done.add(b["id"])
            S.unit(cfg, "%s keeps the type invariant (%s a value)" % (b["path"], how), fs.site_invariant(b), engine=fs.FUnit)
    for n, t, b in fs.fin_bodies(eng):
        rt = eng.tys(b["body"]["locals"][0])
        if (n, t) in KNOWN_FIN or b["id"] in done or fs.FINNAME not in rt or "Archived" in rt or t in ("HasField",):
            continue
        if (b.get("impl_trait") or "").startswith(("zerocopy", "rkyv")):
            continue
        S.unit(cfg, "%s keeps the type invariant" % b["path"], fs.site_invariant(b), engine=fs.FUnit)


def param_units(S, cfg):
    U = lambda nm, f, e=fs.FUnit: S.unit(cfg, nm, f, budget=200, engine=e)
    U("FiniteAboveNegOneF64::new", fs.param_new)
    U("FiniteAboveNegOneF64::get, f64::from", fs.param_get)
    U("FiniteAboveNegOneF64::default", fs.param_default)
    U("FiniteAboveNegOneF64::clone", fs.param_clone)
    for nm, op in fs.ARITH.items():
        U("FiniteAboveNegOneF64::" + nm, fs.param_arith(nm, op))
    U("TryFrom<f64>", fs.param_try_from)
    U("FromStr", fs.param_from_str)
    U("constants of the parameter type", fs.const_invariant)
    if cfg == "all":
        U("serde Deserialize", fs.serde_param_gate, fs.Serde)
    try:
        derive_units(S, cfg, fs.FUnit(S.dump(cfg)))
    except (Unsupported, KeyError, TypeError, IndexError) as e:
        def fail(eng, e=e):
            raise Unsupported(str(e))
        U("construction sites", fail)


@check("C01")
def c01(S):
    with S.proofs():
        for cfg in CFGS:
            param_units(S, cfg)
        e = fs.FUnit(S.dump("all"))
        for b in e.d["bodies"]:
            t = (b.get("impl_trait") or "")
            if (b.get("impl_self") or "").split("::")[-1] == fs.FINNAME and t == "zerocopy::TryFromBytes" and b.get("name") == "is_bit_valid":
                S.assumed.append("zerocopy::TryFromBytes is derived for the type and accepts every bit pattern: see the known finding "
                                 "zerocopy-try-from-bytes (decided by concrete runs)")
    S.audit["rules"].append("bit patterns: special values, neighbours of -1, uniform random patterns; the real constructors, conversions, "
                            "arithmetic, parser, serde_json and zerocopy readers")
    bad = S.bad
    vals = fin_values(S)
    pairs = [(a, S.rng.choice(vals)) for a in vals] + [(a, b) for a in vals[:12] for b in vals[:12]]
    for h in S.hints:
        xs = [v for v in h.values() if isinstance(v, int)]
        for a in xs:
            for b in xs:
                pairs.append((a, b))
    for v in S.values(-1e300, 1e300, 200):
        pairs += [(struct_bits(v), S.rng.choice(vals)), (S.rng.choice(vals), struct_bits(v))]
    fin_cases(S, bad, pairs)
    verdict(S, bad)


# ---------------------------------------------------------------------- C13
@check("C13")
def c13(S):
    with S.proofs():
        cfg = "all"
        S.unit(cfg, "serde round trip of FiniteAboveNegOneF64", fs.serde_roundtrip(fs.FINNAME), engine=fs.Serde)
        for s in GAUSS + NC:
            S.unit(cfg, "serde round trip of %s" % s, fs.serde_roundtrip(s), engine=fs.Serde)
        S.assumed.append("the data format hands back the fields it was given, as a map or as a sequence in the same order; serde's own "
                         "implementations for f64, NonZero integers, tuples and boxed slices round-trip")
    S.audit["rules"].append("real rules through serde_json (text and tree): equality and the set of keys")
    bad = S.bad
    fields = {}
    for s in GAUSS:
        try:
            fields[SHORT[s]] = sorted(fs.struct_uid(fs.FUnit(S.dump(cfg)), s)[1]["variants"][0]["fields"])
        except Unsupported:
            pass
    for r in ["leg", "cheb1", "cheb2", "herm", "lag", "jac", "jac_leg", "jac_cheb1", "jac_cheb2"]:
        for n in nlist(S, [1, 2, 3, 7, 20], list(range(1, 41)) + [99, 100, 101, 150]) + [300, 500] * (r in ("lag", "herm")):
            al, be = params(S.rng), params(S.rng)
            S.case(("serde", r, n, al, be), {"rule": r, "degree": n, "alpha": al, "beta": be})
            okk, t = ask(S.probe(cfg), "serde %s %d %r %r" % (r, n, al, be))
            if not okk:
                bad.append("serde round trip of %s(%d, %r, %r): %s" % (r, n, al, be, t))
            elif r in fields and sorted(t.split(",")) != fields[r]:
                bad.append("serialization of %s(%d) has the keys %s, the fields are %s" % (r, n, t, ",".join(fields[r])))
    for r in ("mid", "trap", "simp"):
        for n in [1, 2, 3, 100, 65535, 65536, 2 ** 31, 2 ** 32 - 1]:
            S.case(("serde", r, n), {"rule": r, "degree": n})
            okk, t = ask(S.probe(cfg), "serdenc %s %d" % (r, n))
            if not okk:
                bad.append("serde round trip of %s(%d): %s" % (r, n, t))
    vals = [b for b in fin_values(S) if is_valid_bits(b)]
    for h in S.hints:
        vals += [v for v in h.values() if isinstance(v, int) and is_valid_bits(v)]
    vals += [struct_bits(v) for v in S.values(-1, 1e300, 200)]
    for b in vals:
        S.case(("serdefin", b))
        okk, t = ask(S.probe(cfg), "serdefin 0x%016x" % b)
        if not okk:
            bad.append("serde round trip of the parameter 0x%016x: %s" % (b, t))
    verdict(S, bad)


# ---------------------------------------------------------------------- C08, C09
def leg_modes(cfg):
    return ("new",) + (("par_new",) if cfg == "all" else ())


def leg_hints(S):
    return [(int(h["n"]), int(h["k"])) for h in S.hints if "n" in h and "k" in h and 1 <= h["k"] <= h["n"] <= 2 * 10 ** 7]


@check("C08")
def c08(S):
    with S.proofs():
        for cfg in CFGS:
            c = contracts_for(S, cfg, "legendre_pair")
            for m in leg_modes(cfg):
                S.unit(cfg, "GaussLegendre::%s: table elements" % m, ls.table_elements("GaussLegendre", m), c.table)
            S.unit(cfg, "pairs of degree 1..=100 (all 5050)", ls.ground_pairs(1, 100), budget=200)
        S.assumed.append("the reference zeros are those of P_n (Newton iteration in 200-bit fixed point from Bruns' starting points, "
                         "two nested checks: convergence and, in the concrete runs, strict order)")
    S.audit["rules"].append("every degree 1..100, every constructor and configuration, all pairs: exhaustive for the real code")
    bad = S.bad
    for cfg in CFGS:
        for r in ("leg",) + (("par_leg",) if cfg == "all" else ()):
            for n in range(1, 101):
                bad.append(leg_case(S, cfg, r, n))
                if not bad[-1]:
                    bad.append(order_case(S, cfg, r, n))
    verdict(S, [b for b in bad if b])


@check("C09")
def c09(S):
    with S.proofs():
        for cfg in CFGS:
            c = contracts_for(S, cfg, "legendre_pair")
            for m in leg_modes(cfg):
                S.unit(cfg, "GaussLegendre::%s: table elements" % m, ls.table_elements("GaussLegendre", m), c.table)
            tab = {}
            e = Engine(S.dump(cfg), {})
            for b in ls.usize_to_f64(e.d):
                try:
                    with mp.workdps(50):
                        nm = ls.classify(e, b)
                except (Unsupported, logic.NumErr, KeyError, IndexError, TypeError, ValueError):
                    nm = None
                if nm is None:
                    continue
                S.unit(cfg, "%s: %s" % (b["path"], ls.BESSEL[nm][0]), ls.bessel_contract(b["path"], nm), budget=100)
                ok = S.units[-1]["status"] == "ok" and all(o.verdict.ok is True for o in S.units[-1]["obs"])
                S.contract_report.append({"config": cfg, "function": b["path"], "contract": "requires k >= 1; ensures %s within relative %s"
                                          % (ls.BESSEL[nm][0], mpmath.nstr(ls.BTOL[nm], 3)), "status": "discharged" if ok else "not proved",
                                          "detail": ""})
                tab[b["path"]] = ls.bessel_handler(nm)
            S.unit(cfg, "pairs of every degree above 100", ls.large_pairs, tab, budget=200)
            S.unit(cfg, "rounding of the pairs of every degree above 100", rn.legendre_rounding(ls.find_pair, 2e-15, 1e-14), budget=100)
        S.assumed += ROUNDING
        S.assumed += [
            "the expansion of Legendre zeros and weights in 1/(n+1/2)^2 (derived here from the differential equation, six terms) has a "
            "remainder below 1e-18 for n > 100 (Bogaert 2014; seen below 1e-22 against exact zeros)",
            "the expansions of j_{0,k} and J_1(j_{0,k})^2 (derived here from the modulus and phase expansions) have remainders below "
            "their first omitted term for k > 64 (Nemes 2021 for the zeros)",
            "a Chebyshev interpolant of degree 51 represents the analytic coefficient functions on |theta| <= pi/2 + 0.03 (nearest singularities "
            "at +-pi: interpolation error below 1e-25)",
        ]
    S.audit["rules"].append("full tables for consecutive degrees above 100, sampled indices (ends, middle, table switch, random) for large "
                            "degrees, all constructors; against exact zeros up to degree 3000, the six-term expansion above")
    bad = S.bad
    rng = S.rng
    hs = leg_hints(S)
    full = nlist(S, list(range(101, 122)) + [127, 128, 129, 150, 199, 200, 201, 255, 256, 257], list(range(101, 261)) + [300, 400, 401, 500, 511, 512, 513, 600])
    regular = nlist(S, [300, 511, 512, 999, 1000, 1001, 2048, 2999, 5000, 10001, 65536, 100001, 1000000],
                    [300, 333, 511, 512, 777, 999, 1000, 1001, 1024, 2048, 2999, 3000, 3001, 5000, 8191, 10001, 30000, 65535, 65536,
                     65537, 100001, 300007, 1000000, 3000001])
    picks = {}
    for n, k in hs:
        picks.setdefault(n, []).append(k)
    for n in S.degrees(2 * 10 ** 7, 40, 101):
        picks.setdefault(n, []).extend(S.degrees((n + 1) // 2, 40))
    for k in S.degrees(3000, 20):
        for n in (2 * k + 1, 4 * k + 3, 9 * k + 1):
            if n > 100:
                picks.setdefault(n, []).append(k)
    picks = {n: ks[:60] for n, ks in list(picks.items())[:80] if n > 100}

    def pick(cfg, r, n):
        m = (n + 1) // 2
        lo = list(range(1, 26)) + [m - 1, m, m + 1, m + 2, m + 3] + [rng.randint(1, n) for _ in range(nlist(S, 4, 30))]
        lo += picks.get(n, [])
        bad.append(leg_case(S, cfg, r, n, lo + [n + 1 - k for k in lo]))
    for cfg in CFGS:
        for r in ("leg",) + (("par_leg",) if cfg == "all" else ()):
            for n in full:
                bad.append(leg_case(S, cfg, r, n))
            for n in regular:
                if n <= 70000 or cfg == "all" and r == "leg" or S.tier != "quick":
                    pick(cfg, r, n)
            for n in picks:
                if n not in regular:
                    pick(cfg, r, n)
    verdict(S, [b for b in bad if b], lambda h: h.get("n", 1) <= 2 * 10 ** 7)


# ---------------------------------------------------------------------- C14
SAFE = {"overflow", "bounds", "division", "panic", "unchecked", "unreachable", "pre", "nonvacuous"}


def gamma_returns(eng):
    bs = [b for b in eng.d["bodies"] if b.get("name") == "gamma" and b["kind"] != "Closure" and b.get("body") and b["body"]["argc"] == 1]
    if len(bs) != 1:
        raise Unsupported("gamma not found")
    x = var("x")
    run(eng, new_state([lt(0, x)]), bs[0], [x])


def bessel_returns(path):
    def go(eng):
        k = var("k", "I")
        run(eng, new_state([le(1, k), le(k, MAXN)]), eng.by_path[path], [k])
    return go


def nc_from(eng):
    n = var("n", "I")
    bs = [b for b in eng.d["bodies"] if b.get("name") == "from" and b.get("impl_self") and short(b["impl_self"]) in NC]
    for b in bs:
        run(eng, new_state([le(1, n), le(n, 2 ** 32 - 1)]), b, [nz(n)])
    eng.obs.append(Ob("nonvacuous", "From<NonZeroU32>", "conversions found", Verdict(True if bs else None, "syntactic"), T_.T, ()))


def safety_units(S, cfg):
    al, be = var("alpha"), var("beta")
    par = cfg == "all"
    c = contracts_for(S, cfg, "legendre_pair", "golub_welsch", "gamma", rules=())
    c2 = contracts_for(S, cfg, "golub_welsch", "gamma", rules=GAUSS[:3])
    for s in GAUSS[:3]:
        for m in ("new",) + (("par_new",) if par else ()):
            S.unit(cfg, "%s::%s" % (s, m), exactly_n(s, m), c.table)
    if c2.gw_body:
        S.unit(cfg, "golub_welsch", c2.gw_body)
    S.unit(cfg, "GaussHermite::new", exactly_n("GaussHermite", "new"), c2.table)
    S.unit(cfg, "GaussLaguerre::new", exactly_n("GaussLaguerre", "new", (al,)), c2.table)
    S.unit(cfg, "GaussJacobi::new", exactly_n("GaussJacobi", "new", (al, be)), c2.table, 150)
    S.unit(cfg, "gamma", gamma_returns)
    tab = {}
    e = Engine(S.dump(cfg), {})
    for b in ls.usize_to_f64(e.d):
        S.unit(cfg, b["path"], bessel_returns(b["path"]))
        tab[b["path"]] = ls.bessel_handler("bessel_" + b["path"].split("::")[-1])
    S.unit(cfg, "pairs of every degree above 100", ls.large_safe, tab)
    S.unit(cfg, "pairs of degree 1..=100 (all 5050)", ls.ground_safe(1, 100), budget=200)
    for s in GAUSS:
        for m in ("integrate",) + (("par_integrate",) if par else ()):
            S.unit(cfg, "%s::%s" % (s, m), weighted_integrate(s, m))
    for s in NC:
        for m in ("integrate",) + (("par_integrate",) if par else ()):
            S.unit(cfg, "%s::%s" % (s, m), nc_integrate(s, m))
        S.unit(cfg, "%s::{new, degree, change_degree}" % s, nc_new(s))
    S.unit(cfg, "From<NonZeroU32> for the Newton-Cotes rules", nc_from)
    S.unit(cfg, "conversions and getters", jacobi_conversions)
    S.unit(cfg, "GaussLaguerre::alpha", laguerre_keeps_alpha(al), c2.table)
    for s in GAUSS + NC:
        S.unit(cfg, "%s: views" % s, rule_views(s))
        for v in (VIEWS if s in GAUSS else VIEWS[:1]):
            S.unit(cfg, "%s::%s: iterator methods" % (s, v[0]), iterator_contract(s, v))
    param_units(S, cfg)
    if par:
        S.unit(cfg, "serde round trip of FiniteAboveNegOneF64", fs.serde_roundtrip(fs.FINNAME), engine=fs.Serde)
        for s in GAUSS + NC:
            S.unit(cfg, "serde round trip of %s" % s, fs.serde_roundtrip(s), engine=fs.Serde)


def fmt_returns(b):
    """formatting and error sources: no assertion, and calls only to core's formatting machinery"""
    def go(eng):
        eng.executed.add(b["path"])
        ok = True
        for bl in b["body"]["blocks"]:
            t = bl["t"]
            if "assert" in t:
                ok = None
            if "call" in t:
                f = t["call"].get("k", {}).get("fn", {})
                if not (f.get("path") or "").startswith(("core::fmt::", "<f64 as core::fmt")) and not (
                        f.get("name") == "fmt" and (f.get("impl_trait") or f.get("trait") or f.get("path") or "").startswith("core::fmt")):
                    ok = None
        eng.obs.append(Ob("panic", b["path"], "no assertion and only calls to core::fmt", Verdict(ok, "syntactic"), T_.T, ()))
    return go


def everything(S, cfg, bad):
    """concrete calls of everything; only panics and errors of shape count"""
    p = S.probe(cfg)
    rng = S.rng

    def call(cmd, what):
        S.case((cfg, cmd), {"call": what, "config": cfg})
        okk, s = ask(p, cmd, 120)
        if not okk:
            bad.append("%s [%s, %s]: %s" % (what, cfg, cmd, ("panicked: " + s) if okk is False else s))
    hs = S.degrees(10 ** 6)
    ns = nlist(S, list(range(1, 135)) + [255, 256, 257, 1000, 4097, 70000], list(range(1, 700)) + [1000, 1001, 4096, 4097, 65535, 65536, 70000, 10 ** 6])
    for r in ("leg", "cheb1", "cheb2") + (("par_leg", "par_cheb1", "par_cheb2") if cfg == "all" else ()):
        for n in ns + hs:
            call("rulepick %s %d %s" % (r, n, ",".join(str(i) for i in {0, n - 1, n // 2})), "%s(%d)" % (r, n))
    ext = [-0.9999999999999999, -0.5, 0.0, 5e-324, 0.5, 1.0, 40.0, 171.0, 1e8, 1e154, 1e308, 1.7976931348623157e308]
    for n in nlist(S, [1, 2, 3, 4, 5, 8, 17, 40], list(range(1, 45)) + [64, 65, 100, 101, 200]) + [h for h in hs if h <= 700][:20]:
        call("rule herm %d %s %s" % (n, hexf(0), hexf(0)), "herm(%d)" % n)
        for _ in range(nlist(S, 12, 30) if n <= 200 else 2):
            a, b = rng.choice(ext + [params(rng)] * 3), rng.choice(ext + [params(rng)] * 3)
            call("rule jac %d %s %s" % (n, hexf(a), hexf(b)), "jac(%d, %r, %r)" % (n, a, b))
            call("rule lag %d %s %s" % (n, hexf(a), hexf(b)), "lag(%d, %r)" % (n, a))
        for h in S.hints[:20] + [{"alpha": v, "beta": S.rng.choice([v, 0.3])} for v in S.values(-1, 1e300)]:
            a, b = h.get("alpha", 0.3), h.get("beta", 0.3)
            if isinstance(a, float) and isinstance(b, float) and -1 < a and -1 < b and n < 20:
                call("rule jac %d %s %s" % (n, hexf(a), hexf(b)), "jac(%d, %r, %r)" % (n, a, b))
                call("rule lag %d %s %s" % (n, hexf(a), hexf(b)), "lag(%d, %r)" % (n, a))
    for v in list(range(0, 176)) + [255, 256, 1000, 65536, 10 ** 6, 2 ** 31, 2 ** 32, 2 ** 53, 2 ** 63, 2 ** 64]:
        for a, b in ((float(v), 0.0), (v + .5, .5), (rng.randint(0, 200) + .0, float(v))):
            call("rule lag 2 %s %s" % (hexf(a), hexf(b)), "lag(2, %r)" % a)
            call("rule jac %d %s %s" % (rng.choice((1, 2)), hexf(a), hexf(b)), "jac(1 or 2, %r, %r)" % (a, b))
    ends = [0.0, -0.0, 5e-324, -5e-324, 1e-310, 1.0, -1.0, 2.0 ** 53, 1e300, 1.7976931348623157e308, -1.7976931348623157e308,
            float("inf"), -float("inf"), float("nan")]
    pairs = [(0.0, 0.0), (0.0, 5e-324), (5e-324, 0.0), (0.0, -5e-324), (-0.0, 0.0), (1.0, 1.0), (1.0, 1.0 + 2 ** -52), (1.0, 1.0 - 2 ** -53), (-1.0, -1.0), (2.0, -1.0),
             (-1.7976931348623157e308, 1.7976931348623157e308), (0.0, float("nan")), (float("nan"), 0.0), (0.0, float("inf")),
             (float("inf"), float("inf")), (-float("inf"), float("inf"))]
    pairs += [(a, b) for a in ends for b in ends] if S.tier != "quick" else [(rng.choice(ends), rng.choice(ends)) for _ in range(12)]
    for mode in modes(cfg):
        for r in ("leg", "cheb1", "cheb2"):
            for f in ("q:hash", "q:zero"):
                call("int %s %d %s %s %s %s %s %s" % (r, 10 ** 6, hexf(0), hexf(0), mode, f, hexf(-1), hexf(2)), "%s(1000000), %s integrate" % (r, mode))
        for r in ("mid", "trap", "simp"):
            call("nc %s %d %s q:hash %s %s" % (r, 3 * 10 ** 6, mode, hexf(-1), hexf(2)), "%s(3000000), %s integrate" % (r, mode))
        for a, b in pairs:
            for s in NC:
                for n in ("1", "2", "5"):
                    call("nc %s %s %s %s %s %s" % (SHORT[s], n, mode, rng.choice(["hash", "wild", another(S)]), hexf(a), hexf(b)),
                         "%s(%s), %s integrate(%r, %r)" % (s, n, mode, a, b))
            for s in GAUSS:
                n = rng.randint(1, 9)
                call("int %s %d %s %s %s %s %s %s" % (SHORT[s], n, hexf(0.25), hexf(0.5), mode, rng.choice(["hash", "wild", another(S)]), hexf(a), hexf(b)),
                     "%s(%d), %s integrate(%r, %r)" % (s, n, mode, a, b))


@check("C14")
def c14(S):
    with S.proofs():
        S.keep = SAFE
        S.blind = True
        S.only_failures = True
        for cfg in CFGS:
            safety_units(S, cfg)
            todo = [b for b in S.dump(cfg)["bodies"] if b["kind"] != "Closure" and not b.get("derived") and "::_::" not in b["path"]
                    and b["path"] not in S.executed[cfg] and (b.get("impl_trait") or "").startswith(("core::fmt", "core::error"))]
            for b in todo:
                S.unit(cfg, b["path"], fmt_returns(b))
        S.keep = None
        S.blind = False
        for cfg in CFGS:
            rest = sorted(b["path"] for b in S.dump(cfg)["bodies"] if b["kind"] != "Closure" and not b.get("derived") and "::_::" not in b["path"]
                          and b["path"] not in S.executed[cfg] and not (b.get("impl_trait") or "").startswith(("rkyv", "zerocopy", "serde")))
            S.extra["functions_of_the_crate_not_reached_" + cfg] = rest
            S.extra["functions_of_the_crate_analysed_" + cfg] = len(S.executed[cfg])
        S.assumed += ["derived implementations and those of rkyv and zerocopy's macros do not panic",
                      "functions of core, alloc, nalgebra, rayon and libm return normally when their contracts' preconditions hold "
                      "(nalgebra's eigensolver terminates)", "a table of n pairs fits the address space: n < 2^59"]
    S.audit["rules"].append("constructors for many degrees and extreme parameters, integrals, views and iterators under random call "
                            "sequences, parameter arithmetic; overflow checks and debug assertions on; a panic is a failure")
    bad = S.bad
    for cfg in CFGS:
        everything(S, cfg, bad)
    nc_audit(S, nlist(S, ["1", "2", "3", "7", "100", "70001", "1,5", "9,i,4"], ["1", "2", "3", "4", "5", "7", "64", "100", "70001", "1,5", "9,i,4", "1,1"]), bad)
    views_audit(S, bad, [SHORT[s] for s in GAUSS])
    vals = fin_values(S)[:nlist(S, 200, 3000)]
    fin_cases(S, bad, [(a, S.rng.choice(vals)) for a in vals])
    for r in [SHORT[s] for s in GAUSS]:
        for cfg in CFGS:
            for mode in modes(cfg):
                for n in nlist(S, [1, 2, 33], [1, 2, 3, 33, 100, 101]):
                    bad.append(weighted_case(S, cfg, r, mode, n, params(S.rng), params(S.rng), *reals(S.rng)))
    verdict(S, [b for b in bad if b], lambda h: h.get("n", 1) <= 10 ** 6)
