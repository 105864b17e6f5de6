"""Rounding-error contracts: the difference between what the code's floating-point operations give and
the real value of the same expression, in the standard model fl(a op b) = (a op b)(1 + d), |d| <= 2^-53
(2^-52 for sin, cos and pow).

The engine runs the MIR in rounding mode (every operation's result is an atom "fl"), and the error of the result is
bounded by the mean value theorem: sum over the operations of |d result / d operation| * |operation| * u, with derivative
and value enclosures over boxes of the inputs (and of all d), by reverse accumulation in interval arithmetic."""
import numpy as np
from fractions import Fraction as Fr
from specs import *
from logic import Verdict
import term as T_

U = 2.0 ** -53
SLOP = 1e-13


def widen(lo, hi):
    return lo - np.abs(lo) * SLOP - 1e-300, hi + np.abs(hi) * SLOP + 1e-300


def add(x, y):
    return widen(x[0] + y[0], x[1] + y[1])


def mul(x, y):
    a, b, c, d = x[0] * y[0], x[0] * y[1], x[1] * y[0], x[1] * y[1]
    return widen(np.minimum(np.minimum(a, b), np.minimum(c, d)), np.maximum(np.maximum(a, b), np.maximum(c, d)))


def recip(x):
    if np.any((x[0] <= 0) & (x[1] >= 0)):
        raise Unsupported("rounding: division by an enclosure of zero")
    return widen(1.0 / x[1], 1.0 / x[0])


def power(x, e):
    if e < 0:
        return power(recip(x), -e)
    if e == 1:
        return x
    if e % 2 == 0:
        lo = np.where((x[0] <= 0) & (x[1] >= 0), 0.0, np.minimum(np.abs(x[0]), np.abs(x[1])))
        hi = np.maximum(np.abs(x[0]), np.abs(x[1]))
        return widen(lo ** e, hi ** e)
    return widen(x[0] ** e, x[1] ** e)


def scal(c):
    v = float(c)
    return widen(np.float64(v), np.float64(v))


def mag(x):
    return np.maximum(np.abs(x[0]), np.abs(x[1]))


def lipschitz(f, x):
    if f is np.sin and np.all((x[0] >= -1.57) & (x[1] <= 1.57)):
        return widen(np.sin(x[0]), np.sin(x[1]))
    m, r = (x[0] + x[1]) / 2, (x[1] - x[0]) / 2 + 1e-15
    y = f(m)
    return np.clip(y - r, -1, 1), np.clip(y + r, -1, 1)


class Boxes:
    """enclosures over many boxes at once"""

    def __init__(self, env):
        self.env = env          # atom id -> (lo array, hi array)
        self.val = {}
        self.order = []

    def p(self, p):
        out = None
        for m, c in p.t.items():
            t = scal(c)
            for a, e in m:
                t = mul(t, power(self.atom(a), e))
            out = t if out is None else add(out, t)
        return out if out is not None else scal(0)

    def atom(self, a):
        if a in self.val:
            return self.val[a]
        k = ATOMS[a]
        if a in self.env:
            v = self.env[a]
        elif a == PI_ID:
            v = scal(np.pi)
            v = (v[0] - 1e-15, v[1] + 1e-15)
        elif a == E_ID:
            v = scal(np.e)
            v = (v[0] - 1e-15, v[1] + 1e-15)
        elif k.kind == "poly":
            v = self.p(k.args[0])
        elif k.kind == "app" and k.name in ("fl", "fl1"):
            u = U if k.name == "fl" else 2 * U
            x = self.p(k.args[0])
            v = mul(x, (np.float64(1 - u), np.float64(1 + u)))
        elif k.kind == "app" and k.name in ("sin", "cos"):
            v = lipschitz(np.sin if k.name == "sin" else np.cos, self.p(k.args[0]))
        elif k.kind == "app" and k.name == "sqrt":
            x = self.p(k.args[0])
            if np.any(x[0] <= 0):
                raise Unsupported("rounding: root of an enclosure of zero")
            v = widen(np.sqrt(x[0]), np.sqrt(x[1]))
        elif k.kind == "app" and k.name == "abs":
            x = self.p(k.args[0])
            v = (np.where((x[0] <= 0) & (x[1] >= 0), 0.0, np.minimum(np.abs(x[0]), np.abs(x[1]))), mag(x))
        else:
            raise Unsupported("rounding: %s" % show_atom(k)[:80])
        self.val[a] = v
        self.order.append(a)
        return v

    def error(self, root):
        """bound of |floating-point result - real value| on every box, and the enclosure of the result"""
        v = self.p(root)
        adj = {}

        def push(p, w):
            for m, c in p.t.items():
                for i, (a, e) in enumerate(m):
                    t = mul(w, scal(c * e))
                    if e != 1:
                        t = mul(t, power(self.val[a], e - 1))
                    for j, (b, f) in enumerate(m):
                        if j != i:
                            t = mul(t, power(self.val[b], f))
                    adj[a] = add(adj[a], t) if a in adj else t
        push(root, scal(1))
        err = 0.0
        for a in reversed(self.order):
            k = ATOMS[a]
            if a not in adj or k.kind not in ("app", "poly"):
                continue
            w = adj[a]
            if k.kind == "poly":
                push(k.args[0], w)
            elif k.name in ("fl", "fl1"):
                u = U if k.name == "fl" else 2 * U
                err = err + mag(w) * mag(self.p(k.args[0])) * u
                push(k.args[0], mul(w, (np.float64(1 - u), np.float64(1 + u))))
            elif k.name == "sin":
                push(k.args[0], mul(w, lipschitz(np.cos, self.p(k.args[0]))))
            elif k.name == "cos":
                x = lipschitz(np.sin, self.p(k.args[0]))
                push(k.args[0], mul(w, (-x[1], -x[0])))
            elif k.name == "sqrt":
                push(k.args[0], mul(w, mul(recip(self.val[a]), scal(Fr(1, 2)))))
            elif k.name == "abs":
                push(k.args[0], mul(w, (np.float64(-1), np.float64(1))))
        return err * (1 + 1e-9), v


def rounding_run(eng, b, args, st, mode=True):
    """outcomes of body b in rounding mode (its safety obligations are other units' business)"""
    eng.rounding = mode
    eng.quiet += 1
    try:
        return run(eng, st, b, args)
    finally:
        eng.rounding = False
        eng.quiet -= 1


def report(eng, b, text, worst, tol, how, env):
    ok = worst <= tol
    eng.obs.append(Ob("post", b["path"], text + ": at most %.3g (allowed %.3g)" % (worst, tol),
                      Verdict(True if ok else None, how if ok else "bound too large", None, "%.3g at %s" % (worst, env)), T_.T, ()))


MAXN = 2.0 ** 50


def geometric(lo, hi, per):
    m = max(1, int(np.ceil(np.log2(hi / lo) * per)))
    g = lo * (hi / lo) ** (np.arange(m + 1) / m)
    g[0], g[-1] = lo, hi
    return g[:-1] * (1 - 1e-12), g[1:] * (1 + 1e-12)


def legendre_rounding(find_pair, tol_node, tol_weight, small=64):
    def go(eng):
        b = find_pair(eng)
        n, q = var("n", "I"), var("q", "I")
        nid, qid = next(iter(n.fv)), next(iter(q.fv))
        worst = {}

        def account(what, err, at):
            i = int(np.argmax(err)) if np.ndim(err) else 0
            e = float(np.max(err))
            if not e <= worst.get(what, (0.0, ""))[0]:
                worst[what] = (e, at(i))
        for mirrored in (False, True):
            for k0 in list(range(1, small + 1)) + [None]:
                k = K(k0) if k0 else q
                pc = [le(101, n), le(n, int(MAXN)), le(1, k), le(2 * k, n if mirrored else n + 1)] + ([] if k0 else [lt(small, q)])
                if k0:
                    lo = max(101.0, 2.0 * k0 - 1)
                    nl, nh = geometric(lo, MAXN, 8)
                    env = {nid: (nl, nh)}
                else:
                    nl, nh = geometric(max(101.0, 2.0 * small), MAXN, 8)
                    ql, qh = geometric(small + 1.0, MAXN / 2 + 1, 8)
                    i, j = np.nonzero(ql[None, :] <= ((nh + 1) / 2)[:, None])
                    env = {nid: (nl[i], nh[i]), qid: (ql[j], np.minimum(qh[j], (nh[i] + 1) / 2 * (1 + 1e-12)))}
                for s, v in rounding_run(eng, b, [n, n + 1 - k if mirrored else k], new_state(pc)):
                    if not (isinstance(v, Agg) and len(v.f) == 2):
                        raise Unsupported("shape of the pair")
                    for what, x in zip(("node", "weight"), v.f):
                        B = Boxes(env)
                        e, r = B.error(x)
                        if what == "weight":
                            m = np.minimum(np.abs(r[0]), np.abs(r[1]))
                            if np.any(r[0] * r[1] <= 0):
                                raise Unsupported("weight not bounded away from zero")
                            e = e / m
                        account(what, e, lambda i: "n ~ %g, k ~ %s%s" % (env[nid][0].flat[i], k0 or "%g" % env[qid][0].flat[i],
                                                                        " from the other end" if mirrored else ""))
        for what, tol, text in (("node", tol_node, "rounding error of the node"), ("weight", tol_weight, "relative rounding error of the weight")):
            e, at = worst[what]
            report(eng, b, text + ", all n in 101..2^50 and k", e, tol, "reverse interval error analysis", at)
    return go


def chebyshev_rounding(struct, meth, tol_node, tol_weight):
    """weights relative to the largest weight, pi / n or pi / (n + 1)"""
    def go(eng):
        n = var("n", "I")
        nid = next(iter(n.fv))
        b = method(eng, struct, meth)
        j = var("j", "I")
        jid = next(iter(j.fv))
        for s, v in rounding_run(eng, b, nz_args(eng, b, n, ()), new_state([le(1, n), le(n, int(MAXN))])):
            t = table_of(eng, v)
            x = vmap(t.get(j), lambda q: simp(q, s.fork(le(0, j), lt(j, n)).pc))
            # index from either end: 1 .. (n + 1) / 2
            worst = {}
            for mirrored in (False, True):
                nl, nh = geometric(1.0, MAXN, 16)
                il, ih = geometric(1.0, MAXN / 2 + 1, 16)
                a, c = np.nonzero(il[None, :] <= ((nh + 1) / 2)[:, None])
                env = {nid: (nl[a], nh[a]), jid: (il[c], np.minimum(ih[c], (nh[a] + 1) / 2 * (1 + 1e-12)))}
                y = vmap(x, lambda p: subst(p, {jid: n - j if mirrored else j - 1}))
                for what, p in zip(("node", "weight"), y.f):
                    B = Boxes(env)
                    e, r = B.error(p)
                    if what == "weight":
                        e = e * (nh[a] + 1) / np.pi
                    e = np.broadcast_to(e, nl[a].shape)
                    i = int(np.argmax(e))
                    if not float(e[i]) <= worst.get(what, (0.0, ""))[0]:
                        worst[what] = (float(e[i]), "n ~ %g, i ~ %g%s" % (env[nid][0][i], env[jid][0][i], " from the other end" if mirrored else ""))
            for what, tol, text in (("node", tol_node, "rounding error of the node"),
                                    ("weight", tol_weight, "rounding error of the weight relative to pi / (n + 1)")):
                e, at = worst[what]
                report(eng, b, text + ", all n in 1..2^50 and every index", e, tol, "reverse interval error analysis", at)
    return go


def sample_points(struct, meth, tol, maxn=2.0 ** 32):
    """every argument the integrand is called with is within tol * max(|a|, |b|) of its real value (by scaling, for
    a and b in [-1, 1]; nodes of a bounded rule are in [-1, 1])"""
    def go(eng):
        b = method(eng, struct, meth)
        R = Rule(eng, struct)
        st = new_state(R.pc + [le(R.n, int(maxn))], ghost=True)
        ref = eng.alloc(st, R.v)
        args, ab = integ_args(eng, b, ref)
        if len(ab) != 2:
            raise Unsupported("number of bounds")
        one = (np.float64(-1), np.float64(1))
        nl, nh = geometric(1.0, maxn, 16)
        (nid,), worst, found = R.n.fv, (0.0, ""), 0
        for s, v in rounding_run(eng, b, args, st, "points"):
            atoms = below(s.cells[("ghost", "f")])
            calls = [ATOMS[i].args[0] for i in atoms if ATOMS[i].kind == "app" and ATOMS[i].name == "calls_f"]
            found += len(calls)
            for p in calls:
                env = {nid: (nl, nh)}
                for i in below(p):
                    k = ATOMS[i]
                    if k.kind == "app" and k.name == "x" or i in ab[0].fv | ab[1].fv:
                        env[i] = one
                    elif k.kind in ("var", "bv") and k.sort == "I" and i != nid:
                        env[i] = (0 * nl, nh)
                e, r = Boxes(env).error(p)
                e = np.broadcast_to(e, nl.shape)
                i = int(np.argmax(e))
                if not float(e[i]) <= worst[0]:
                    worst = float(e[i]), "n ~ %g, %s" % (nl[i], show(p)[:200])
        if not found:
            raise Unsupported("no sample points")
        report(eng, b, "rounding error of every sample point relative to max(|a|, |b|), all n in 1..2^32", worst[0], tol,
               "reverse interval error analysis", worst[1])
    return go
