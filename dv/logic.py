"""Discharging obligations: z3 back end, the equality prover, and a numeric refuter."""
import hashlib, random, struct, time
from fractions import Fraction as Fr
import z3
import mpmath as mp
from term import *
import term as T_

mp.mp.dps = 40

STATS = {"z3_calls": 0, "z3_time": 0.0, "norm": 0, "numeric": 0}
z3.set_param("smt.random_seed", 0)


# ---------------------------------------------------------------- z3
class Enc:
    """translation of P / C to z3"""

    def __init__(self, pos=frozenset()):
        self.vars = {}
        self.side = []
        self.seen = set()
        self.pos = pos

    def atomv(self, aid):
        v = self.vars.get(aid)
        if v is not None:
            return v
        k = ATOMS[aid]
        v = z3.Int("a%d" % aid) if k.sort == "I" else z3.Real("a%d" % aid)
        self.vars[aid] = v
        self.axioms(k, v)
        return v

    def axioms(self, k, v):
        s = self.side
        if k.kind == "var":
            if k.name == "pi":
                s.append(v > z3.Q(314159265358979, 10 ** 14))
                s.append(v < z3.Q(314159265358980, 10 ** 14))
            elif k.name == "e":
                s.append(v > z3.Q(271828182845904, 10 ** 14))
                s.append(v < z3.Q(271828182845905, 10 ** 14))
            return
        if k.kind == "ite":
            c, a, b = k.args
            cz = self.c(c)
            s.append(z3.Implies(cz, v == self.p(a, k.sort)))
            s.append(z3.Implies(z3.Not(cz), v == self.p(b, k.sort)))
            return
        if k.kind == "app":
            n = k.name
            if n == "sqrt":
                x = self.p(k.args[0])
                s.append(v >= 0)
                s.append(z3.Implies(x >= 0, v * v == x))
                s.append(z3.Implies(x > 0, v > 0))
            elif n == "pow":
                b = self.p(k.args[0])
                s.append(z3.Implies(b > 0, v > 0))
            elif n == "gamma":
                x = self.p(k.args[0])
                s.append(z3.Implies(x > 0, v > 0))
            elif n in ("sin", "cos"):
                s.append(v >= -1)
                s.append(v <= 1)
            elif n == "abs":
                x = self.p(k.args[0], k.sort)
                s.append(v >= 0)
                s.append(z3.Or(v == x, v == -x))
            elif n == "idiv":
                a = self.p(k.args[0], "I")
                b = self.p(k.args[1], "I")
                s.append(z3.Implies(b > 0, z3.And(b * v <= a, a < b * v + b)))

    def mono(self, m, want):
        r = None
        for a, e in m:
            v = self.atomv(a)
            if want == "R" and ATOMS[a].sort == "I":
                v = z3.ToReal(v)
            for _ in range(abs(e)):
                if e > 0:
                    r = v if r is None else r * v
            if e < 0:
                for _ in range(-e):
                    r = (1 / v) if r is None else r / v
        return r

    def p(self, p, want=None):
        if want is None:
            want = "R"
        if want == "I" and not is_int(p):
            want = "R"
        r = None
        for m, c in p.t.items():
            mm = self.mono(m, want)
            if want == "I":
                cc = z3.IntVal(int(c))
            else:
                cc = z3.Q(c.numerator, c.denominator)
            t = cc if mm is None else (mm if c == 1 else cc * mm)
            r = t if r is None else r + t
        if r is None:
            r = z3.IntVal(0) if want == "I" else z3.RealVal(0)
        return r

    def c(self, c):
        if c.op == "true":
            return z3.BoolVal(True)
        if c.op == "false":
            return z3.BoolVal(False)
        if c.op == "bvar":
            return z3.Bool("b_%s" % (c.a[0],))
        if c.op in ("=", "<", "<="):
            p = c.a[0]
            p = clear_signed(p, c.op, self.pos)
            e = self.p(p, "I" if is_int(p) else "R")
            z = 0
            return e == z if c.op == "=" else (e < z if c.op == "<" else e <= z)
        if c.op == "not":
            return z3.Not(self.c(c.a[0]))
        if c.op == "and":
            return z3.And([self.c(x) for x in c.a])
        if c.op == "or":
            return z3.Or([self.c(x) for x in c.a])
        raise ValueError(c.op)


def neg_exps(p):
    d = {}
    for m in p.t:
        for a, e in m:
            if e < 0 and -e > d.get(a, 0):
                d[a] = -e
    return d


def clear_signed(p, op, pos):
    """multiply by denominators, keeping the relation's direction"""
    for _ in range(8):
        d = neg_exps(p)
        if not d:
            return p
        f = ONE
        for a, e in d.items():
            if op != "=" and e % 2 and a not in pos and not atom_pos(a, pos):
                e += 1
            f = f * A(ATOMS[a]) ** e if ATOMS[a].kind != "poly" else f * ATOMS[a].args[0] ** e
        p = mul_clear(p, d, f, op, pos)
    return p


def mul_clear(p, d, f, op, pos):
    r = ZERO
    # multiply monomial-wise so that poly atoms cancel exactly
    ex = {}
    for a, e in d.items():
        if op != "=" and e % 2 and a not in pos and not atom_pos(a, pos):
            e += 1
        ex[a] = e
    for m, c in p.t.items():
        md = dict(m)
        t = K(c)
        for a, e in ex.items():
            md[a] = md.get(a, 0) + e
        restm = []
        for a, e in sorted(md.items()):
            if e == 0:
                continue
            if ATOMS[a].kind == "poly":
                t = t * ATOMS[a].args[0] ** e
            else:
                restm.append((a, e))
        r = r + T_._renorm(P({tuple(restm): Fr(1)})) * t
    return r


def atom_pos(a, pos):
    k = ATOMS[a]
    if a in (PI_ID, E_ID):
        return True
    if k.kind == "poly":
        q = k.args[0]
        return all(c > 0 for c in q.t.values()) and all(
            all(x in pos or atom_pos(x, pos) for x, _ in m) for m in q.t)
    return False


def pos_of(pc):
    """atoms syntactically known to be positive from pc"""
    r = set()
    for c in pc:
        if c.op in ("<", "<="):
            p = c.a[0]
            if len(p.t) <= 2:
                k = p.t.get((), Fr(0))
                ms = [m for m in p.t if m]
                if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1 and p.t[ms[0]] < 0:
                    # -a + k (<|<=) 0  ->  a (>|>=) k
                    if k > 0 or (k == 0 and c.op == "<"):
                        r.add(ms[0][0][0])
    return frozenset(r)


_cache = {}
TIMEOUT = 3000
SLOW = 0


def check(cs, timeout=None, want_model=False):
    """'sat' | 'unsat' | 'unknown' for the conjunction"""
    cs = [c for c in cs if c.op != "true"]
    if any(c.op == "false" for c in cs):
        return ("unsat", None) if want_model else "unsat"
    key = frozenset(cs)
    if not want_model and key in _cache:
        return _cache[key]
    t0 = time.time()
    e = Enc(pos_of(cs))
    zs = [e.c(c) for c in cs]
    s = z3.Solver()
    s.set("timeout", timeout or TIMEOUT)
    for z in zs:
        s.add(z)
    for z in e.side:
        s.add(z)
    r = str(s.check())
    STATS["z3_calls"] += 1
    dt = time.time() - t0
    STATS["z3_time"] += dt
    if SLOW and dt > SLOW:
        print(("slow z3 %.2fs %s: %r" % (dt, r, cs))[:1500])
    if want_model:
        m = None
        if r == "sat":
            mod = s.model()
            m = {}
            for a, v in e.vars.items():
                x = mod.eval(v, model_completion=True)
                try:
                    if z3.is_int_value(x):
                        m[a] = Fr(x.as_long())
                    elif z3.is_rational_value(x):
                        m[a] = Fr(x.numerator_as_long(), x.denominator_as_long())
                    elif z3.is_algebraic_value(x):
                        y = x.approx(20)
                        m[a] = Fr(y.numerator_as_long(), y.denominator_as_long())
                except Exception:
                    pass
        return r, m
    _cache[key] = r
    return r


def relevant(pc, c):
    """facts of pc connected to c through shared free variables"""
    need = set(x for x in c.fv)
    fs = [x for x in pc if x.op != "true"]
    out = []
    changed = True
    while changed:
        changed = False
        rest = []
        for x in fs:
            if not x.fv or (x.fv & need):
                out.append(x)
                new = x.fv - need
                if new:
                    need |= new
                    changed = True
            else:
                rest.append(x)
        fs = rest
    return out


def entails(pc, c, timeout=None):
    """True only if pc implies c (unknown counts as not entailed)"""
    if c.op == "true":
        return True
    if c in pc:
        return True
    if c.op == "and":
        return all(entails(pc, x, timeout) for x in c.a)
    if c.op == "false":
        return check(pc, timeout) == "unsat"
    return check(relevant(pc, c) + [neg(c)], timeout) == "unsat"


def feasible(pc, timeout=None):
    """False only if pc is unsatisfiable"""
    return check(list(pc), timeout) != "unsat"


# ---------------------------------------------------------------- simplification under pc
def find_ite(p, acc, bound=()):
    """ite atoms in p outside sums, outermost first"""
    if isinstance(p, C):
        for x in p.a:
            if isinstance(x, (P, C)):
                find_ite(x, acc)
        return
    for m in p.t:
        for a, _ in m:
            k = ATOMS[a]
            if k.kind == "ite":
                if a not in acc:
                    acc[a] = k
            elif k.kind != "sum":
                for x in k.args:
                    if isinstance(x, (P, C)):
                        find_ite(x, acc)


def repl(p, d):
    """replace whole atoms (id -> P) in p, outside sums too"""
    def f(k):
        return d.get(k.id)
    return map_atoms(p, f)


def simp(p, pc):
    """resolve conditionals decided by pc"""
    for _ in range(20):
        acc = {}
        find_ite(p, acc)
        d = {}
        for a, k in acc.items():
            c = k.args[0]
            if entails(pc, c):
                d[a] = k.args[1]
            elif entails(pc, neg(c)):
                d[a] = k.args[2]
            elif c.op == "=":
                # ite(y = s, u, v) with u[s/y] = v[s/y] is v
                for y in c.a[0].atoms():
                    if ATOMS[y].kind == "var" and y not in (PI_ID, E_ID):
                        s_ = solve_linear(c.a[0], y, pc)
                        if s_ is not None and y not in s_.fv and defined_at(k.args[2], y, s_, pc) and is_zero(
                                subst(k.args[1], {y: s_}) - subst(k.args[2], {y: s_})):
                            d[a] = k.args[2]
                            break
        if not d:
            break
        p = repl(p, d)
    # inside sums
    def f(k):
        if k.kind == "sum":
            hi, body, y = k.args
            yv = A(ATOMS[y])
            pc2 = list(pc) + [le(0, yv), lt(yv, hi)]
            acc = {}
            find_ite(body, acc)
            if not acc:
                return None
            b2 = simp(body, pc2)
            if b2 != body:
                return mk_sum(hi, b2, ATOMS[y])
            # split the range at an affine condition on the bound variable
            for a, kk in acc.items():
                c = kk.args[0]
                r = split_sum(hi, body, y, kk, pc)
                if r is not None:
                    return r
            return None
        return None
    has_sum = any(ATOMS[a].kind == "sum" or ATOMS[a].args for m in p.t for a, _ in m)
    if has_sum:
        p = map_atoms(p, f)
    return p


def defined_at(p, y, s, pc):
    """no denominator of p vanishes where y = s"""
    for k in all_atoms(p).values():
        todo = []
        if k.kind == "poly" or k.kind == "ite" or k.args:
            todo = [x for x in k.args if isinstance(x, P)]
        for x in todo:
            for a in neg_exps(x):
                if not nonzero_at(a, y, s, pc):
                    return False
    return all(nonzero_at(a, y, s, pc) for a in neg_exps(p))


def nonzero_at(a, y, s, pc):
    if a in (PI_ID, E_ID):
        return True
    k = ATOMS[a]
    x = subst(k.args[0] if k.kind == "poly" else A(k), {y: s})
    c = x.const()
    return c != 0 if c is not None else entails(pc, neg(eq0(x)))


def split_sum(hi, body, y, kk, pc):
    c = kk.args[0]
    yv = A(ATOMS[y])
    if c.op == "=":
        # ite(y == k, u, v): sum = sum(v) + [0<=k<hi] (u(k) - v(k))
        k = solve_linear(c.a[0], y)
        if k is None or not is_int(k):
            return None
        u = repl(body, {kk.id: kk.args[1]})
        v = repl(body, {kk.id: kk.args[2]})
        inside = conj(le(0, k), lt(k, hi))
        if not defined_at(v, y, k, list(pc) + [inside]):
            return None
        return mk_sum(hi, v, ATOMS[y]) + mk_ite(inside, subst(u, {y: k}) - subst(v, {y: k}), ZERO)
    if c.op == "<":
        p = c.a[0]
        k = solve_linear(p, y)
        if k is None:
            return None
        co = lin_coef(p, y).const()
        if co is None or not is_int(k):
            return None
        u = repl(body, {kk.id: kk.args[1]})
        v = repl(body, {kk.id: kk.args[2]})
        if co > 0:   # y < k -> u on [0,k), v on [k,hi)
            lo_b, hi_b, k0 = u, v, k
        else:        # y > k -> v on [0,k+1), u on [k+1,hi)
            lo_b, hi_b, k0 = v, u, k + 1
        if entails(pc, conj(le(0, k0), le(k0, hi))):
            return mk_sum(k0, lo_b, ATOMS[y]) + mk_sum(hi - k0, subst(hi_b, {y: yv + k0}), ATOMS[y])
    return None


def lin_coef(p, y):
    """coefficient of y when p is linear in y, else None"""
    r = ZERO
    for m, c in p.t.items():
        d = dict(m)
        if y in d:
            if d[y] != 1:
                return None
            mm = tuple((a, e) for a, e in m if a != y)
            if any(y in ATOMS[a].fv for a, _ in mm):
                return None
            r = r + P({mm: c})
        elif any(y in ATOMS[a].fv for a, _ in m):
            return None
    return r


def solve_linear(p, y, pc=None):
    """p == 0 solved for variable y; with pc, only when the coefficient cannot vanish"""
    co = lin_coef(p, y)
    if co is None or co.is_zero():
        return None
    if pc is not None and co.const() is None and not entails(pc, neg(eq0(co))):
        return None
    rest = p - co * A(ATOMS[y])
    return -(rest / co)


# ---------------------------------------------------------------- zero test
def clear_eq(p):
    for _ in range(12):
        d = neg_exps(p)
        d = {a: e for a, e in d.items() if ATOMS[a].kind == "poly"}
        if not d:
            break
        p = mul_clear(p, d, None, "=", frozenset())
    return p


PRIME = (1 << 61) - 1
_mod = {}


def mod_atom(a):
    v = _mod.get(a)
    if v is None:
        k = ATOMS[a]
        if k.kind == "poly":
            v = mod_eval(k.args[0])
        else:
            v = int.from_bytes(hashlib.sha256(b"m%d" % a).digest()[:8], "big") % PRIME
        _mod[a] = v
    return v


def mod_eval(p):
    """value modulo a prime at a pseudo-random point (None when a denominator vanishes there)"""
    r = 0
    for m, c in p.t.items():
        t = c.numerator % PRIME * pow(c.denominator % PRIME, -1, PRIME) if c.denominator != 1 else c.numerator % PRIME
        for a, e in m:
            v = mod_atom(a)
            if v == 0 and e < 0:
                return 0
            t = t * pow(v, e, PRIME) % PRIME
        r = (r + t) % PRIME
    return r


_zmemo = {}


def is_zero(p):
    if p.is_zero():
        return True
    r = _zmemo.get(p)
    if r is None:
        r = mod_eval(p) == 0 and clear_eq(p).is_zero()
        _zmemo[p] = r
    return r


def sums_in(p):
    return [a for a in p.atoms() if ATOMS[a].kind == "sum"]


def sum_unify(p, pc):
    """try to rewrite sums whose bodies are shifts of one another"""
    ss = sums_in(p)
    for i in range(len(ss)):
        for j in range(len(ss)):
            if i == j:
                continue
            a, b = ATOMS[ss[i]], ATOMS[ss[j]]
            h1, b1, y1 = a.args
            h2, b2, y2 = b.args
            dh = (h1 - h2).const()
            if dh is None or dh.denominator != 1 or abs(dh) > 4 or dh < 0:
                continue
            # sum1 is longer (or equal): sum1 = sum_{y<h2} b1(y+s) + boundary
            d = int(dh)
            z = bv(max(b1.lvl, b2.lvl, h1.lvl, h2.lvl) + 50)
            zb = A(z)
            for rev in (False, True):
                for s in range(0, d + 1):
                    src = subst(b1, {y1: (zb + s) if not rev else (h1 - 1 - zb - (d - s))})
                    tgt = subst(b2, {y2: zb})
                    if is_zero(src - tgt):
                        # indices covered: [s, s+h2) (forward) -- the others are boundary terms
                        if d and not entails(pc, le(0, h2)):
                            continue
                        r = A(b)
                        idx = list(range(0, s)) + [None] * 0
                        for q in range(0, s if not rev else d - s):
                            pass
                        if not rev:
                            low, high = s, d - s
                        else:
                            # src index = h1-1-z-(d-s), z in [0,h2) covers [h1-1-(h2-1)-(d-s), h1-1-(d-s)] = [s, s+h2-1]
                            low, high = s, d - s
                        for q in range(low):
                            r = r + subst(b1, {y1: K(q)})
                        for q in range(high):
                            r = r + subst(b1, {y1: h1 - 1 - q})
                        return repl(p, {a.id: r})
    return None


class Verdict:
    __slots__ = ("ok", "how", "env", "detail")

    def __init__(self, ok, how, env=None, detail=""):
        self.ok, self.how, self.env, self.detail = ok, how, env, detail

    def __repr__(self):
        return "Verdict(%s,%s,%s)" % (self.ok, self.how, self.detail[:200])


def prove_zero(p, pc, depth=0):
    """prove p == 0 under pc; returns how or None"""
    if is_zero(p):
        STATS["norm"] += 1
        return "normal form"
    p = simp(p, pc)
    if is_zero(p):
        return "normal form"
    # equalities in pc usable as rewrites: v = term
    for c in pc:
        if c.op == "=":
            q = c.a[0]
            for a in q.atoms():
                if ATOMS[a].kind == "var" and a in p.fv and a not in (PI_ID, E_ID):
                    s = solve_linear(q, a, [x for x in pc if x is not c])
                    if s is not None and a not in s.fv:
                        p2 = subst(p, {a: s})
                        pc2 = [subst(x, {a: s}) for x in pc if x is not c]
                        return prove_zero(p2, pc2, depth + 1) if depth < 6 else None
    acc = {}
    find_ite(p, acc)
    if acc and depth < 8:
        k = next(iter(acc.values()))
        c = k.args[0]
        hows = []
        for cond, v in ((c, k.args[1]), (neg(c), k.args[2])):
            pc2 = list(pc) + (list(cond.a) if cond.op == "and" else [cond])
            if not feasible(pc2):
                continue
            h = prove_zero(repl(p, {k.id: v}), pc2, depth + 1)
            if h is None:
                return None
            hows.append(h)
        return "case split (z3) + normal form"
    for _ in range(6):
        q = sum_unify(p, pc)
        if q is None:
            break
        p = q
        if is_zero(p):
            return "sum algebra"
    if sums_in(p) and any(ATOMS[a].kind == "ite" for a in all_atoms(p)) and depth < 3:
        q = simp(p, pc)
        if q != p:
            return prove_zero(q, pc, depth + 1)
    # short ranges: sums over a range that pc bounds by a constant
    if depth < 3:
        for a in sums_in(p):
            h = ATOMS[a].args[0]
            for k in (0, 1):
                if entails(pc, eq(h, k)):
                    v = mk_sum(K(k), ATOMS[a].args[1], ATOMS[ATOMS[a].args[2]])
                    return prove_zero(repl(p, {a: v}), pc, depth + 1)
    # functions of equal arguments: congruence modulo pc
    q = congruence(p, pc)
    if q is not None and is_zero(q):
        return "congruence (z3) + normal form"
    # linear arithmetic / nonlinear by z3
    if len(all_atoms(p)) < 40:
        if entails(pc, eq0(p), 2000):
            return "z3"
    # u*sqrt(a) = v*sqrt(b): compare squares
    h = sqrt_pair(p, pc)
    if h:
        return h
    return None


def congruence(p, pc):
    """merge applications of the same symbol whose arguments pc proves equal"""
    ats = [k for k in all_atoms(p).values() if k.kind == "app" and k.args and
           all(isinstance(x, P) or not isinstance(x, (C,)) for x in k.args)]
    d = {}
    for i, k in enumerate(ats):
        for j in range(i):
            l = ats[j]
            if l.id in d or k.name != l.name or len(k.args) != len(l.args):
                continue
            ok = True
            any_p = False
            for x, y in zip(k.args, l.args):
                if isinstance(x, P) and isinstance(y, P):
                    any_p = True
                    if x != y and not (is_zero(x - y) or ((x - y).fv and len(all_atoms(x - y)) < 12 and entails(pc, eq(x, y), 500))):
                        ok = False
                        break
                elif x != y:
                    ok = False
                    break
            if ok and any_p:
                d[k.id] = A(l)
                break
    if not d:
        return None
    return repl(p, d)


def sqrt_pair(p, pc):
    ms = list(p.t.items())
    if len(ms) != 2:
        return None
    (m1, c1), (m2, c2) = ms
    u, v = P({m1: c1}), P({m2: -c2})
    has = lambda m: any(ATOMS[a].kind == "app" and ATOMS[a].name == "sqrt" for a, _ in m)
    if not (has(m1) or has(m2)):
        return None
    if is_zero(u * u - v * v):
        if entails(pc, le(0, u)) and entails(pc, le(0, v)):
            return "squares + z3 signs"
        if entails(pc, le(0, -u)) and entails(pc, le(0, -v)):
            return "squares + z3 signs"
    return None


# ---------------------------------------------------------------- numeric evaluation
def hrand(*key):
    h = hashlib.sha256(repr(key).encode()).digest()
    return int.from_bytes(h[:7], "big") / float(1 << 56)


class NumErr(Exception):
    pass


NUM1 = {"asin": mp.asin, "acos": mp.acos, "atan": mp.atan, "sinh": mp.sinh, "cosh": mp.cosh, "tanh": mp.tanh, "exp_m1": mp.expm1,
        "ln_1p": lambda x: mp.log(1 + x), "log2": lambda x: mp.log(x, 2), "log10": mp.log10, "cbrt": lambda x: mp.sign(x) * mp.cbrt(abs(x)),
        "ceil": mp.ceil, "round": lambda x: mp.sign(x) * mp.floor(abs(x) + mp.mpf(0.5)), "round_ties_even": mp.nint,
        "exp2": lambda x: mp.mpf(2) ** x, "fract": lambda x: x - (mp.floor(x) if x >= 0 else mp.ceil(x))}
WIDTHS = {"%s%s" % (s, w): (64 if w == "size" else int(w), s == "i") for s in "iu" for w in ("8", "16", "32", "64", "128", "size")}


class Env:
    """a concrete interpretation: values of variables and of uninterpreted functions"""

    def __init__(self, vals, seed=0, funs=None):
        self.v = dict(vals)
        self.seed = seed
        self.funs = funs or {}

    def clone(self, a, x):
        e = Env(self.v, self.seed, self.funs)
        e.v[a] = x
        return e

    def ev(self, p):
        if isinstance(p, C):
            return self.evc(p)
        r = mp.mpf(0)
        for m, c in p.t.items():
            t = mp.mpf(c.numerator) / c.denominator
            for a, e in m:
                x = self.eva(a)
                if e < 0 and x == 0:
                    raise NumErr("division by zero")
                t = t * x ** e
            r = r + t
        return r

    def evc(self, c):
        if c.op == "true":
            return True
        if c.op == "false":
            return False
        if c.op == "bvar":
            return hrand(self.seed, c.a[0]) < 0.5
        if c.op == "not":
            return not self.evc(c.a[0])
        if c.op == "and":
            return all(self.evc(x) for x in c.a)
        if c.op == "or":
            return any(self.evc(x) for x in c.a)
        x = self.ev(c.a[0])
        if c.op == "=":
            return abs(x) < mp.mpf(10) ** -30
        if c.op == "<":
            return x < -mp.mpf(10) ** -30
        return x <= mp.mpf(10) ** -30

    def eva(self, a):
        if a in self.v:
            x = self.v[a]
            return x
        k = ATOMS[a]
        if k.kind == "var":
            if a == PI_ID:
                return mp.pi
            if a == E_ID:
                return mp.e
            raise NumErr("no value for %s" % show_atom(k))
        if k.kind == "poly":
            return self.ev(k.args[0])
        if k.kind == "ite":
            return self.ev(k.args[1]) if self.evc(k.args[0]) else self.ev(k.args[2])
        if k.kind == "sum":
            hi, body, y = k.args
            n = int(mp.nint(self.ev(hi)))
            if n > 5000:
                raise NumErr("long sum")
            s = mp.mpf(0)
            for j in range(n):
                s += self.clone(y, mp.mpf(j)).ev(body)
            return s
        n = k.name
        if n in self.funs:
            return self.funs[n](self, k)
        args = [self.ev(x) if isinstance(x, P) else x for x in k.args]
        try:
            if n == "sqrt":
                if args[0] < 0:
                    raise NumErr("sqrt of negative")
                return mp.sqrt(args[0])
            if n == "pow":
                if args[0] <= 0:
                    raise NumErr("pow of nonpositive")
                return mp.power(args[0], args[1])
            if n == "sin":
                return mp.sin(args[0])
            if n == "cos":
                return mp.cos(args[0])
            if n == "gamma":
                return mp.gamma(args[0])
            if n == "idiv":
                return mp.floor(args[0] / args[1])
            if n == "abs":
                return abs(args[0])
            if n == "ln":
                return mp.log(args[0])
            if n in ("floor", "trunc"):
                return mp.floor(args[0]) if args[0] >= 0 or n == "floor" else mp.ceil(args[0])
            if n in NUM1 and len(args) == 1:
                r = NUM1[n](args[0])
                if mp.im(r) != 0:
                    raise NumErr(n)
                return mp.re(r)
            if n in ("hypot", "atan2"):
                return getattr(mp, n)(args[0], args[1])
            if n == "f32":
                return mp.mpf(struct.unpack("f", struct.pack("f", float(args[0])))[0])
            if isinstance(n, tuple) and n[0] == "wrap" and n[1] in WIDTHS:
                w, signed = WIDTHS[n[1]]
                x = int(mp.nint(args[0])) % 2 ** w
                return mp.mpf(x - 2 ** w if signed and x >= 2 ** (w - 1) else x)
        except (ValueError, ZeroDivisionError, OverflowError) as ex:
            raise NumErr(str(ex))
        # uninterpreted: a smooth pseudo-random function of the real arguments
        h = (self.seed, n if isinstance(n, str) else repr(n)) + tuple(
            repr(x) for x in k.args if not isinstance(x, (P, C)))
        isint = [isinstance(x, P) and is_int(x) for x in k.args]
        key = h + tuple(int(mp.nint(args[i])) for i in range(len(args)) if isint[i])
        c1, c2, c3 = hrand(key, 1), hrand(key, 2), hrand(key, 3)
        r = mp.mpf(c1) - mp.mpf(0.5)
        for i, x in enumerate(args):
            if isinstance(k.args[i], P) and not isint[i]:
                r += (mp.mpf(c2) + 0.3) * mp.sin(x * (1 + mp.mpf(c3)) + c1 * 3 + i) + mp.mpf(c3) * x / (3 + i)
        if k.sort == "I":
            r = mp.nint(r * 5)
        return r


def repair(e, pc, rng, rounds=24):
    """move single real variables across the boundary of a violated inequality, by a random small amount, until all hold"""
    for _ in range(rounds):
        bad = [c for c in pc if not e.evc(c)]
        if not bad:
            return True
        c = rng.choice(bad)
        while c.op in ("and", "or") or (c.op == "not" and c.a[0].op in ("and", "or")):
            subs = c.a if c.op in ("and", "or") else tuple(neg(x) for x in c.a[0].a)
            subs = [x for x in subs if not e.evc(x)]
            if not subs:
                return False
            c = rng.choice(subs)
        if c.op not in ("<", "<="):
            return False
        f = c.a[0]
        vs = [a for a in sorted(f.fv) if a in e.v and ATOMS[a].kind == "var" and ATOMS[a].sort == "R"]
        if not vs:
            return False
        a = rng.choice(vs)
        x0 = e.v[a]
        y0 = e.ev(f)
        try:
            x, y = x0, y0
            for _ in range(6):
                h = mp.mpf(10) ** -12
                d = (e.clone(a, x + h).ev(f) - y) / h
                if d == 0:
                    break
                x = x - y / d
                y = e.clone(a, x).ev(f)
                if abs(y) < mp.mpf(10) ** -25:
                    break
            step = mp.mpf(10) ** -rng.uniform(0, 20)
            ok = False
            for _ in range(25):
                for sg in rng.sample((1, -1), 2):
                    e2 = e.clone(a, x + sg * step)
                    if e2.evc(c):
                        e.v[a] = x + sg * step
                        ok = True
                        break
                if ok:
                    break
                step /= 10
            if not ok:
                return False
        except NumErr:
            return False
    return all(e.evc(c) for c in pc)


def sample_env(terms, pc, rng, ranges=None, seed=0, tries=200):
    """a concrete interpretation of all variables satisfying pc, or None"""
    fvs = set()
    for t in list(terms) + list(pc):
        fvs |= t.fv
    fvs -= {PI_ID, E_ID}
    ranges = ranges or {}
    for tr in range(tries):
        v = {}
        for a in sorted(fvs):
            k = ATOMS[a]
            r = ranges.get(k.name)
            if r is not None:
                v[a] = mp.mpf(r(rng))
            elif k.sort == "I":
                v[a] = mp.mpf(rng.choice([0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9]))
            else:
                v[a] = mp.mpf(rng.choice([-1, 1])) * mp.mpf(rng.random()) * rng.choice([1, 1, 3])
        # solve simple equalities v = const
        e = Env(v, seed)
        try:
            for c in pc:
                if c.op == "=":
                    for a in c.a[0].atoms():
                        if a in v and ATOMS[a].kind == "var":
                            s = solve_linear(c.a[0], a)
                            if s is not None and a not in s.fv:
                                e.v[a] = e.ev(s)
                                break
            if all(e.evc(c) for c in pc):
                return e
            if tr % 8 == 7 and repair(e, [c for c in pc if c.op != "true"], rng):
                return e
        except NumErr:
            continue
    r, m = check(list(pc), 2000, want_model=True)
    if r == "sat" and m:
        v = {a: mp.mpf(m[a].numerator) / m[a].denominator for a in fvs if a in m and ATOMS[a].kind == "var"}
        for a in fvs:
            if a not in v:
                k = ATOMS[a]
                v[a] = mp.mpf(1)
        e = Env(v, seed)
        try:
            if all(e.evc(c) for c in pc):
                return e
        except NumErr:
            return None
    return None


def branch_pcs(terms, pc, limit=12):
    """pc, then pc extended by every condition (and its negation) the terms branch on, at any depth"""
    yield list(pc)
    acc, seen = {}, set()

    def walk(x):
        if x in seen:
            return
        seen.add(x)
        if isinstance(x, C):
            for y in x.a:
                if isinstance(y, (P, C)):
                    walk(y)
            return
        for m in x.t:
            for a, _ in m:
                k = ATOMS[a]
                if k.kind == "ite" and k.args[0] not in acc:
                    acc[k.args[0]] = None
                for y in k.args:
                    if isinstance(y, (P, C)):
                        walk(y)
    for t in terms:
        walk(t)
    n = 0
    for c in acc:
        if any(isinstance(ATOMS[a].name, str) and ATOMS[a].name.startswith("%") for a in c.fv):
            continue
        a, b = entails(pc, c, 300), entails(pc, neg(c), 300)
        if a or b:
            continue
        n += 1
        if n > limit:
            return
        yield list(pc) + [c]
        yield list(pc) + [neg(c)]


def refute_zero(p, pc, seed=1, n=6, ranges=None, funs=None):
    """look for an interpretation satisfying pc where p is definitely nonzero"""
    for i, q in enumerate(branch_pcs([p], pc)):
        r = refute_zero_on(p, q, seed, n if i == 0 else 3, ranges, funs)
        if r:
            return r
    return None


def refute_zero_on(p, pc, seed, n, ranges, funs):
    rng = random.Random(seed)
    for i in range(n):
        e = sample_env([p], pc, rng, ranges, seed=i)
        STATS["numeric"] += 1
        if e is None:
            continue
        if funs:
            e.funs = funs
        try:
            x = e.ev(p)
            scale = sum(abs(e.ev(P({m: c}))) for m, c in p.t.items()) + mp.mpf(10) ** -20
        except NumErr:
            continue
        if abs(x) > mp.mpf(10) ** -18 * scale:
            return e, x
    # a model of the path condition chosen by the solver so that p is not zero
    if len(p.t) < 60 and not funs:
        e = sample_env([p], list(pc) + [neg(eq0(p))], rng, ranges, seed=n, tries=1)
        if e is not None:
            try:
                x = e.ev(p)
                if abs(x) > mp.mpf(10) ** -12 * (1 + sum(abs(e.ev(P({m: c}))) for m, c in p.t.items())):
                    return e, x
            except NumErr:
                pass
    return None


def decide_zero(p, pc, seed=1, ranges=None, funs=None):
    if p.is_zero():
        STATS["norm"] += 1
        return Verdict(True, "normal form")
    h = prove_zero(p, pc)
    if h:
        return Verdict(True, h)
    r = refute_zero(p, pc, seed, ranges=ranges, funs=funs)
    if r:
        e, x = r
        d = {show_name(ATOMS[a].name): mp.nstr(v, 12) for a, v in e.v.items()}
        return Verdict(False, "refuted", e, "difference %s at %s" % (mp.nstr(x, 8), d))
    return Verdict(None, "unknown", None, show(p)[:400])


def factors(p):
    """(constant, [(factor, exponent)]) with p = constant * product, or None"""
    den = {}
    for _ in range(12):
        d = neg_exps(p)
        if not d:
            break
        for a, e in d.items():
            q = ATOMS[a].args[0] if ATOMS[a].kind == "poly" else A(ATOMS[a])
            den[q] = den.get(q, 0) - e
        p = mul_clear(p, d, None, "=", frozenset())
    if p.is_zero():
        return None
    ats = p.atoms()
    if len(p.t) > 400 or len(ats) > 12:
        return None
    out = [(q, e) for q, e in den.items()]
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return c, out + [(A(ATOMS[a]), e) for a, e in m]
    import sympy
    sy = {a: sympy.Symbol("a%d" % a) for a in ats}
    d = {}
    order = sorted(ats)
    for m, c in p.t.items():
        md = dict(m)
        d[tuple(md.get(a, 0) for a in order)] = sympy.Rational(c.numerator, c.denominator)
    try:
        k, fl = sympy.Poly(d, *[sy[a] for a in order], domain="QQ").factor_list()
    except Exception:
        return None
    for f, e in fl:
        t = {}
        for mon, c in f.terms():
            m = tuple((a, x) for a, x in zip(order, mon) if x)
            t[m] = Fr(int(c.p), int(c.q))
        out.append((P(t), e))
    kk = Fr(int(k.p), int(k.q))
    back = K(kk)
    for q, e in out[len(den):]:
        back = back * q ** e
    if back != p:           # the factorisation is only believed after re-expansion
        return None
    return kk, out


_sign = {}


def sign_of(p, pc):
    """'+', '-', '0+', '0-', '!' (nonzero) or None, from the factors of p"""
    key = (p, tuple(pc))
    if key in _sign:
        return _sign[key]
    r = _sign[key] = _sign_of(p, pc)
    return r


def _sign_of(p, pc):
    fs = factors(p)
    if fs is None:
        return None
    k, fl = fs
    s = 1 if k > 0 else -1
    strict, known = True, True
    for f, e in fl:
        if entails(pc, lt0(-f), 1500):
            continue
        if entails(pc, lt0(f), 1500):
            s = s if e % 2 == 0 else -s
            continue
        nz_ = entails(pc, neg(eq0(f)), 1500)
        if e % 2 == 0:
            if not nz_:
                strict = False
            continue
        if entails(pc, le0(-f), 1500):
            strict = strict and nz_
            continue
        if entails(pc, le0(f), 1500):
            s = -s
            strict = strict and nz_
            continue
        if not nz_:
            return None
        known = False
    if not known:
        return "!" if strict else None
    return ("+" if s > 0 else "-") if strict else ("0+" if s > 0 else "0-")


def by_sign(c, pc):
    """pc |- c by factoring the compared polynomial"""
    if c.op == "or":
        return any(by_sign(x, pc) for x in c.a)
    if c.op == "not" and c.a[0].op == "=":
        return sign_of(c.a[0].a[0], pc) in ("+", "-", "!")
    if c.op == "<":
        return sign_of(c.a[0], pc) == "-"
    if c.op == "<=":
        return sign_of(c.a[0], pc) in ("-", "0-")
    return False


def decide(c, pc, seed=1, ranges=None):
    """decide pc |- c"""
    if c.op == "and":
        vs = [decide(x, pc, seed, ranges) for x in c.a]
        for v in vs:
            if v.ok is not True:
                return v
        return Verdict(True, "z3")
    if c.op == "=":
        return decide_zero(c.a[0], pc, seed, ranges)
    if entails(pc, c, 1000):
        return Verdict(True, "z3")
    if by_sign(c, pc):
        return Verdict(True, "factoring + z3 signs")
    if entails(pc, c, 5000):
        return Verdict(True, "z3")
    # conditionals inside
    rng = random.Random(seed)
    nc = neg(c)
    for i in range(4):
        e = sample_env([c], list(pc) + [nc], rng, ranges, seed=i, tries=100)
        STATS["numeric"] += 1
        if e is not None:
            d = {show_name(ATOMS[a].name): mp.nstr(v, 12) for a, v in e.v.items()}
            return Verdict(False, "refuted", e, "%r fails at %s" % (c, d))
    return Verdict(None, "unknown", None, repr(c)[:400])
