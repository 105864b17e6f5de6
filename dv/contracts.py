"""Contracts of functions of the crate that callers are checked against.

Each contract is proved once against the callee's body (prove_*), and only then used at the
call sites.  When the proof does not go through (or the function is gone) the callee is
inlined at its call sites instead."""
from term import *
from logic import *
from val import *
import term as T_
from sym import *
import std
import session


def eig_pair(n, D, O2, O, y, scale, j):
    """what golub_welsch promises for position j: the sigma-sorted (eigenvalue, scale * squared
    first eigenvector component) pairs of the symmetric tridiagonal (D, O)"""
    z = bv(max(D.lvl, O2.lvl, n.lvl) + 120)
    sg = app("sigma", n, app("eigval", n, D, O2, y, A(z)), A(z), j, sort="I")
    return tup(app("eigval", n, D, O2, y, sg), app("eigvec", n, D, O2, O, y, ZERO, sg) ** 2 * scale)


def branch_merge(eng, base, rs):
    """one value for all outcomes of a call, as conditionals on the branch conditions"""
    common = set(rs[0][0].pc)
    for s, _ in rs[1:]:
        common &= set(s.pc)
    v = None
    for s, x in rs:
        c = conj(*[q for q in s.pc if q not in common and q not in eng.assert_facts])
        v = x if v is None else vite(c, x, v)
    return v


def gw_parts(eng, st, n, diag, off, ctx):
    y = A(bv(900))
    i = A(fresh("i", "I"))
    iid = next(iter(i.fv))
    diag, off = std.callee(eng, st, diag), std.callee(eng, st, off)
    s = st.fork(le(0, i), lt(i, n))
    D = branch_merge(eng, s, eng.call_value(s, diag, [i], ctx))
    s = st.fork(le(0, i), lt(i + 1, n))
    if feasible(s.pc):
        O = branch_merge(eng, s, eng.call_value(s, off, [i], ctx))
        O = simp(O, s.pc)
        O2 = simp(O * O, s.pc)
    else:
        O = O2 = ZERO
    D = simp(D, list(st.pc) + [le(0, i), lt(i, n)])
    lv = max(D.lvl, O2.lvl, O.lvl, n.lvl) + 60
    y = A(bv(lv))
    sb = lambda p: subst(p, {iid: y})
    return sb(D), sb(O2), sb(O), y


def unwrap_nz(v):
    return v.f[0] if isinstance(v, Agg) and v.tag == "nz" else v


class Contracts:
    def __init__(self, dump):
        self.d = dump
        self.table = {}
        self.report = []        # (function, contract text, proved?, detail)
        self.obs = []
        self.gw_body = None

    def try_prove(self, path, text, fn):
        eng = Engine(self.d, dict(self.table))
        if path not in eng.by_path:
            self.report.append((path, text, None, "function not found"))
            return None
        try:
            with session.limited(60):
                h = fn(eng)
            self.executed = getattr(self, "executed", set()) | eng.executed
            bad = [o for o in eng.obs if o.verdict.ok is not True]
            if bad:
                self.report.append((path, text, None, "; ".join(
                    "%s %s: %s" % (o.where, o.text, o.verdict.detail[:100]) for o in bad[:3])))
                return None
            self.obs += eng.obs
            self.trusted = getattr(self, "trusted", set()) | eng.trusted
            self.inlined = getattr(self, "inlined", set()) | eng.inlined
            self.report.append((path, text, True, ""))
            self.table[path] = h
            return h
        except Unsupported as e:
            self.report.append((path, text, None, str(e)))
            return None
        except Exception as e:
            self.report.append((path, text, None, "%s: %s" % (type(e).__name__, e)))
            return None

    # ------------------------------------------------------------ golub_welsch
    def golub_welsch(self):
        cands = [b["path"] for b in self.d["bodies"] if b.get("name") == "golub_welsch" and b["kind"] != "Closure"]
        if not cands:
            return
        path = cands[0]
        text = ("requires n >= 1; ensures the result holds exactly n pairs, the ascending rearrangement of "
                "(eigenvalue, scale * squared first eigenvector component) of the symmetric tridiagonal "
                "matrix with diagonal diag(0..n) and off-diagonal off(0..n-1)")

        def body(eng):
            b = eng.by_path[path]
            n = A(fresh("n", "I"))
            sc = A(fresh("scale", "R"))
            st = State({}, (le(1, n), le(n, 2 ** 59)))
            args = []
            L = b["body"]["locals"]
            roles = []
            for i in range(1, b["body"]["argc"] + 1):
                t = eng.tys(L[i])
                if "NonZero" in t:
                    roles.append("nz")
                    args.append(nz(n))
                elif t == "usize":
                    roles.append("n")
                    args.append(n)
                elif t == "f64":
                    roles.append("scale")
                    args.append(sc)
                else:
                    roles.append("f")
                    args.append(Opq("fn", "d" if "f" not in roles[:-1] else "o"))
            if sorted(roles) not in (["f", "f", "nz", "scale"], ["f", "f", "n", "scale"]):
                raise Unsupported("signature %r" % roles)
            rs = eng.run_body(st, b, args)
            for s, v in rs:
                if not isinstance(v, Arr):
                    raise Unsupported("result is not a sequence")
                eng.oblige(s, eq(v.dims[0], n), "post", "golub_welsch returns n pairs")
            return n, sc, st, roles, rs
        self.gw_body = body

        def go(eng):
            n, sc, st, roles, rs = body(eng)
            D0, O20, O0, y = gw_parts(Engine(self.d), State({}, st.pc), n, Opq("fn", "d"), Opq("fn", "o"), {})
            for s, v in rs:
                j = A(fresh("j", "I"))
                s2 = s.fork(le(0, j), lt(j, n))
                got = v.get(j)
                want = eig_pair(n, D0, O20, O0, y, sc, j)
                for (lp, a), (_, w) in zip(leaves(got), leaves(want)):
                    r = eig_equal(a, w, s2.pc)
                    eng.obs.append(Ob("post", "golub_welsch", "pair component %r" % (lp,), r, T_.T, s2.pc))

            def handler(eng, st, args, ctx):
                fs = [a for a, r in zip(args, roles) if r == "f"]
                nn = unwrap_nz([a for a, r in zip(args, roles) if r in ("nz", "n")][0])
                scale = [a for a, r in zip(args, roles) if r == "scale"][0]
                eng.oblige(st, le(1, nn), "pre", "golub_welsch needs degree >= 1", ctx.get("line"))
                D, O2, O, y = gw_parts(eng, st, nn, fs[0], fs[1], ctx)
                j = fresh_ix(0)
                return [(st, comp((nn,), (j,), eig_pair(nn, D, O2, O, y, scale, A(j))))]
            return handler
        self.try_prove(path, text, go)

    # ------------------------------------------------------------ gamma
    def gamma(self):
        import gammaspec
        path = gammaspec.find_gamma(self.d)
        if path is None:
            return
        text = "requires x > 0; ensures the gamma function of x within a relative 1e-14 where it is representable (x <= 171.61)"

        def handler(eng, st, args, ctx):
            x = args[0]
            eng.oblige(st, lt(0, x), "pre", "gamma needs a positive argument: %s" % show(x)[:80], ctx.get("line"))
            return [(st, mk_gamma(x))]
        self.table[path] = handler
        self.gamma_path = path
        self.report.append((path, text, "its body is verified by the unit named gamma of C06", ""))


    # ------------------------------------------------------------ Legendre pairs
    def legendre_pair(self):
        """the k-th node-weight pair of degree n, as an (uninterpreted) function of n and k; its values
        are the business of C08 (n <= 100) and C09 (n > 100)"""
        cands = [b for b in self.d["bodies"] if b["path"].endswith("NodeWeightPair::new") and b.get("body")
                 and b["body"]["argc"] == 2]
        if len(cands) != 1:
            return
        b = cands[0]
        T = self.d["types"]
        L = b["body"]["locals"]
        if [T[L[1]]["s"], T[L[2]]["s"]] != ["usize", "usize"]:
            return
        uid = [u for u, a in self.d["adts"].items() if a.get("local") and a["path"] == T[L[0]]["s"]]
        if len(uid) != 1 or len(self.d["adts"][uid[0]]["variants"][0]["fields"]) != 2:
            return

        def handler(eng, st, args, ctx):
            n, k = args
            eng.oblige(st, conj(le(1, k), le(k, n)), "pre", "the pair index lies in 1..=n", ctx.get("line"))
            return [(st, Agg(uid[0], (app("legendre_pair0", n, k), app("legendre_pair1", n, k))))]
        self.table[b["path"]] = handler
        self.pair_path = b["path"]
        self.report.append((b["path"], "requires 1 <= k <= n; ensures the result is a function of (n, k) alone, the k-th "
                            "Gauss-Legendre pair of degree n", "values: C08, C09", ""))

    # ------------------------------------------------------------ rule constructors
    def rule_new(self, struct):
        """struct::new(n) as n uninterpreted pairs; used where only the identity of the rule matters"""
        cands = [b for b in self.d["bodies"] if b.get("name") == "new" and b.get("impl_self") and not b.get("impl_trait")
                 and b["impl_self"].split("<")[0].split("::")[-1] == struct and b.get("body") and b["body"]["argc"] == 1]
        uid = [(u, a) for u, a in self.d["adts"].items() if a.get("local") and a["path"].split("::")[-1] == struct]
        if len(cands) != 1 or len(uid) != 1:
            return
        u, a = uid[0]
        v = a["variants"][0]
        if len(v["fields"]) != 1 or "(f64, f64)" not in v["tys"][0]:
            return

        def handler(eng, st, args, ctx):
            n = unwrap_nz(args[0])
            eng.oblige(st, le(1, n), "pre", "degree >= 1", ctx.get("line"))
            return [(st, Agg(u, (rule_array(struct, n),)))]
        self.table[cands[0]["path"]] = handler
        self.report.append((cands[0]["path"], "ensures exactly n pairs, a function of n alone", "values: C05, C08, C09", ""))


def rule_array(struct, n):
    j = fresh_ix(0)
    return comp((n,), (j,), tup(app(struct + "_node", n, A(j)), app(struct + "_weight", n, A(j))))


def eig_equal(a, w, pc):
    """equality of expressions over eigval / eigvec applications: the applications are unified
    when their matrices agree as functions of the index"""
    # unify bound variables: rename y / z in a's applications to those of w's
    r = prove_zero(unify_eig(a, w, pc) - w, list(pc))
    if r:
        return Verdict(True, r)
    return Verdict(None, "unknown", None, "%s vs %s" % (show(a)[:200], show(w)[:200]))


def eig_apps(p):
    return [k for k in all_atoms(p).values() if k.kind == "app" and k.name in ("eigval", "eigvec", "sigma")]


def unify_eig(a, w, pc):
    ref = [k for k in eig_apps(w) if k.name in ("eigval", "eigvec")]

    def same_fun(p, y, q, z, hi):
        i = A(fresh("q", "I"))
        p2 = subst(p, {next(iter(y.fv)): i})
        q2 = subst(q, {next(iter(z.fv)): i})
        if p2 == q2:
            return True
        pc2 = list(pc) + [le(0, i), lt(i, hi)]
        if not feasible(pc2):
            return True
        return prove_zero(p2 - q2, pc2) is not None

    memo = {}

    def f(k):
        if k.kind != "app":
            return None
        if k.name == "eigval":
            n, D, O2, y, ix = k.args
            for r in ref:
                if r.name == "eigval":
                    n2, D2, O22, y2, _ = r.args
                    key = (n, D, O2, y, n2, D2, O22, y2)
                    if key not in memo:
                        memo[key] = n == n2 and same_fun(D, y, D2, y2, n) and same_fun(O2, y, O22, y2, n - 1)
                    if memo[key]:
                        return app("eigval", n2, D2, O22, y2, map_atoms(ix, f))
        if k.name == "eigvec":
            n, D, O2, O, y, row, ix = k.args
            for r in ref:
                if r.name == "eigvec":
                    n2, D2, O22, O_2, y2, row2, _ = r.args
                    if n == n2 and row == row2 and row.is_zero() and same_fun(D, y, D2, y2, n) and \
                            same_fun(O2, y, O22, y2, n - 1):
                        # squares only: the sign of the off-diagonal does not matter for row 0 squared
                        return app("eigvec", n2, D2, O22, O_2, y2, row2, map_atoms(ix, f))
        if k.name == "sigma":
            n, body, z, ix = k.args
            b2 = map_atoms(body, f)
            for r in [q for q in eig_apps(w) if q.name == "sigma"]:
                n2, bd2, z2, _ = r.args
                if n == n2 and subst(b2, {next(iter(z.fv)): z2}) == bd2:
                    return app("sigma", n2, bd2, z2, map_atoms(ix, f), sort="I")
        return None
    # innermost first: apply to the matrices' users
    return map_atoms(a, f)
