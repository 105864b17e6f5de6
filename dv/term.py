"""Terms: Laurent polynomials with rational coefficients over interned atoms.

A real or integer valued term is a `P`: a finite map from monomials (products of
integer powers of atoms) to rationals, kept in a normal form.  An atom is a variable, an
application of a function symbol, a symbolic sum, a conditional, or a multi-term
polynomial that occurs as a denominator.
"""
from fractions import Fraction as Fr
from math import gcd, isqrt
import functools

# ---------------------------------------------------------------- atoms
_atoms = {}
ATOMS = []


class Atom:
    __slots__ = ("id", "kind", "name", "args", "sort", "fv", "lvl")

    def __repr__(self):
        return show_atom(self)


def _fv_of(args):
    r = frozenset()
    for a in args:
        if isinstance(a, (P, C)):
            r |= a.fv
        elif isinstance(a, tuple):
            r |= _fv_of(a)
    return r


def _lvl_of(args):
    r = 0
    for a in args:
        if isinstance(a, (P, C)):
            r = max(r, a.lvl)
        elif isinstance(a, tuple):
            r = max(r, _lvl_of(a))
    return r


def atom(kind, name, args=(), sort="R"):
    k = (kind, name, args, sort)
    a = _atoms.get(k)
    if a is None:
        a = Atom()
        a.id = len(ATOMS)
        a.kind, a.name, a.args, a.sort = kind, name, args, sort
        fv = _fv_of(args)
        lvl = _lvl_of(args)
        if kind == "var":
            fv = fv | {a.id}
        if kind == "sum":
            bv = args[2]
            fv = fv - {bv}
            lvl = max(lvl, ATOMS[bv].name[1]) + 1
        a.fv = fv
        a.lvl = lvl
        _atoms[k] = a
        ATOMS.append(a)
    return a


# ---------------------------------------------------------------- polynomials
class P:
    __slots__ = ("t", "_h", "_fv", "_lvl")

    def __init__(self, t):
        self.t = t  # dict mono -> Fr, no zero coefficients
        self._h = None
        self._fv = None
        self._lvl = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, P) and self.t == o.t

    @property
    def fv(self):
        if self._fv is None:
            r = set()
            for m in self.t:
                for a, _ in m:
                    r |= ATOMS[a].fv
            self._fv = frozenset(r)
        return self._fv

    @property
    def lvl(self):
        if self._lvl is None:
            r = 0
            for m in self.t:
                for a, _ in m:
                    r = max(r, ATOMS[a].lvl)
            self._lvl = r
        return self._lvl

    def __add__(self, o):
        o = lift(o)
        if len(o.t) > len(self.t):
            self, o = o, self
        r = dict(self.t)
        for m, c in o.t.items():
            n = r.get(m, 0) + c
            if n:
                r[m] = n
            else:
                del r[m]
        return P(r)

    __radd__ = __add__

    def __neg__(self):
        return P({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) + (-self)

    def __mul__(self, o):
        o = lift(o)
        if len(self.t) == 1 and () in self.t:
            c0 = self.t[()]
            return P({m: c * c0 for m, c in o.t.items()})
        if len(o.t) == 1 and () in o.t:
            c0 = o.t[()]
            return P({m: c * c0 for m, c in self.t.items()})
        r = {}
        fix = []
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, dirty = mmul(m1, m2)
                if dirty:
                    fix.append((m, c1 * c2))
                else:
                    n = r.get(m, 0) + c1 * c2
                    if n:
                        r[m] = n
                    else:
                        r.pop(m, None)
        res = P(r)
        for m, c in fix:
            res = res + norm_mono(m, c)
        return res

    __rmul__ = __mul__

    def __pow__(self, n):
        if n < 0:
            return inv(self) ** (-n)
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r * b
            b = b * b if n > 1 else b
            n >>= 1
        return r

    def __truediv__(self, o):
        return self * inv(lift(o))

    def __rtruediv__(self, o):
        return lift(o) * inv(self)

    def const(self):
        """the rational value of a constant term, else None"""
        if not self.t:
            return Fr(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def is_zero(self):
        return not self.t

    def atoms(self):
        r = set()
        for m in self.t:
            for a, _ in m:
                r.add(a)
        return r

    def __repr__(self):
        return show(self)


def lift(x):
    if isinstance(x, P):
        return x
    if isinstance(x, (int, Fr)):
        return P({(): Fr(x)}) if x else P({})
    raise TypeError(type(x))


ZERO = P({})
ONE = P({(): Fr(1)})


def K(x):
    return lift(Fr(x))


def A(a, e=1):
    return P({((a.id, e),): Fr(1)})


def var(name, sort="R"):
    return A(atom("var", name, (), sort))


PI = A(atom("var", "pi"))
EULER = A(atom("var", "e"))
PI_ID = PI.atoms().pop()
E_ID = EULER.atoms().pop()


def mmul(m1, m2):
    """product of monomials, and whether it needs normalisation"""
    if not m1:
        return m2, False
    if not m2:
        return m1, False
    r = []
    i = j = 0
    dirty = False
    special = 0
    while i < len(m1) and j < len(m2):
        a, e = m1[i]
        b, f = m2[j]
        if a == b:
            if e + f:
                r.append((a, e + f))
            k = ATOMS[a]
            if k.kind == "poly" or (k.kind == "app" and k.name in SPECIAL_POW):
                dirty = True
            i += 1
            j += 1
        elif a < b:
            r.append(m1[i])
            i += 1
        else:
            r.append(m2[j])
            j += 1
    r.extend(m1[i:])
    r.extend(m2[j:])
    if not dirty:
        npow = 0
        for a, e in r:
            k = ATOMS[a]
            if k.kind == "poly":
                dirty = True
                break
            if k.kind == "app" and k.name == "pow":
                npow += 1
        if npow > 1:
            dirty = True
    return tuple(r), dirty


SPECIAL_POW = {"sqrt", "pow", "sin"}


def norm_mono(m, c):
    """normal form of c*m (m may violate the normal-form rules)"""
    # pow(x,a)*pow(x,b) = pow(x,a+b)
    pows = {}
    rest = []
    changed = False
    for a, e in m:
        k = ATOMS[a]
        if k.kind == "app" and k.name == "pow":
            b, y = k.args
            if b in pows:
                pows[b] = pows[b] + y * e
                changed = True
            else:
                pows[b] = y * e
                if e != 1:
                    changed = True
        else:
            rest.append((a, e))
    if changed:
        r = P({tuple(rest): Fr(c)})
        r = _renorm(r)
        for b, y in pows.items():
            r = r * mk_pow(b, y)
        return r
    for idx, (a, e) in enumerate(m):
        k = ATOMS[a]
        if k.kind == "app" and k.name == "sqrt" and (e >= 2 or e <= -2):
            q = 1 if e > 0 else -1
            h = abs(e) // 2
            newm = list(m)
            rem = abs(e) % 2
            if rem:
                newm[idx] = (a, q)
            else:
                del newm[idx]
            base = k.args[0] ** (h * q)
            return norm_mono(tuple(newm), c) * base
        if k.kind == "app" and k.name == "sin" and e >= 2:
            newm = list(m)
            if e % 2:
                newm[idx] = (a, 1)
            else:
                del newm[idx]
            co = A(atom("app", "cos", k.args))
            return norm_mono(tuple(newm), c) * (ONE - co * co) ** (e // 2)
        if k.kind == "poly":
            q = k.args[0]
            if e > 0:
                newm = m[:idx] + m[idx + 1:]
                return norm_mono(newm, c) * q ** e
            # lead(q) * q^-k  ->  q^-(k-1) - rest * q^-k
            lm = lead(q)
            d = dict(m)
            if all(d.get(x, 0) >= f and f > 0 for x, f in lm) and lm:
                for x, f in lm:
                    d[x] -= f
                    if not d[x]:
                        del d[x]
                base = tuple(sorted(d.items()))
                d2 = dict(base)
                d2[a] = d2[a] + 1
                if not d2[a]:
                    del d2[a]
                m1 = tuple(sorted(d2.items()))
                t1 = norm_mono(m1, c)
                restp = q - P({lm: Fr(1)})
                for rm, rc in restp.t.items():
                    mm, _ = mmul(base, rm)
                    t1 = t1 - norm_mono(mm, c * rc)
                return t1
    return P({m: Fr(c)}) if c else ZERO


def _renorm(p):
    r = ZERO
    for m, c in p.t.items():
        r = r + norm_mono(m, c)
    return r


def deg_key(m):
    return (sum(e for _, e in m), tuple(sorted(((e, a) for a, e in m), reverse=True)))


@functools.lru_cache(maxsize=None)
def lead(q):
    return max(q.t, key=deg_key)


def inv(p):
    p = lift(p)
    if p.is_zero():
        raise ZeroDivisionError("symbolic division by zero")
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return norm_mono(tuple((a, -e) for a, e in m), 1 / c)
    # common monomial factor
    common = None
    for m in p.t:
        d = dict(m)
        if common is None:
            common = dict(d)
        else:
            for a in list(common):
                e = min(common[a], d.get(a, 0)) if common[a] > 0 or d.get(a, 0) < 0 else d.get(a, 0)
                common[a] = e
            for a, e in d.items():
                if a not in common and e < 0:
                    common[a] = e
            for a in list(common):
                if a not in d and common[a] > 0:
                    common[a] = 0
    common = {a: e for a, e in common.items() if e}
    cm = tuple(sorted((a, -e) for a, e in common.items()))
    q = ZERO
    for m, c in p.t.items():
        mm, dirty = mmul(m, cm)
        q = q + (norm_mono(mm, c) if dirty else P({mm: c}))
    lc = q.t[lead(q)]
    if lc != 1:
        q = P({m: c / lc for m, c in q.t.items()})
    a = atom("poly", "poly", (q,))
    return norm_mono(cm, 1 / lc) * P({((a.id, -1),): Fr(1)})


# ---------------------------------------------------------------- conditions
class C:
    """Boolean terms: op in true,false,'=','<','<=',not,and,or,bvar"""
    __slots__ = ("op", "a", "_h", "_fv", "_lvl")

    def __init__(self, op, a=()):
        self.op = op
        self.a = a
        self._h = None
        self._fv = None
        self._lvl = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.op, self.a))
        return self._h

    def __eq__(self, o):
        return isinstance(o, C) and self.op == o.op and self.a == o.a

    @property
    def fv(self):
        if self._fv is None:
            self._fv = _fv_of(self.a)
        return self._fv

    @property
    def lvl(self):
        if self._lvl is None:
            self._lvl = _lvl_of(self.a)
        return self._lvl

    def __repr__(self):
        if self.op in ("true", "false"):
            return self.op
        if self.op in ("=", "<", "<="):
            return "(%r %s 0)" % (self.a[0], self.op)
        if self.op == "not":
            return "!%r" % (self.a[0],)
        if self.op == "bvar":
            return str(self.a[0])
        return "(" + (" %s " % self.op).join(map(repr, self.a)) + ")"


T = C("true")
F = C("false")


def _scale(p):
    """positive rescaling to primitive form"""
    c = p.t[lead(p)]
    if abs(c) != 1:
        return P({m: x / abs(c) for m, x in p.t.items()})
    return p


def eq0(p):
    c = p.const()
    if c is not None:
        return T if c == 0 else F
    p = _scale(p)
    if p.t[lead(p)] < 0:
        p = -p
    return C("=", (p,))


def lt0(p):
    c = p.const()
    if c is not None:
        return T if c < 0 else F
    return C("<", (_scale(p),))


def le0(p):
    c = p.const()
    if c is not None:
        return T if c <= 0 else F
    return C("<=", (_scale(p),))


def eq(a, b):
    return eq0(lift(a) - lift(b))


def lt(a, b):
    return lt0(lift(a) - lift(b))


def le(a, b):
    return le0(lift(a) - lift(b))


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def neg(c):
    if c.op == "true":
        return F
    if c.op == "false":
        return T
    if c.op == "not":
        return c.a[0]
    if c.op == "<":
        return le0(-c.a[0])
    if c.op == "<=":
        return lt0(-c.a[0])
    if c.op == "and":
        return disj(*[neg(x) for x in c.a])
    if c.op == "or":
        return conj(*[neg(x) for x in c.a])
    return C("not", (c,))


def conj(*cs):
    r = []
    for c in cs:
        if c.op == "true":
            continue
        if c.op == "false":
            return F
        for x in (c.a if c.op == "and" else (c,)):
            if x not in r:
                r.append(x)
    if not r:
        return T
    for x in r:
        if neg(x) in r:
            return F
    if len(r) == 1:
        return r[0]
    return C("and", tuple(r))


def disj(*cs):
    r = []
    for c in cs:
        if c.op == "false":
            continue
        if c.op == "true":
            return T
        for x in (c.a if c.op == "or" else (c,)):
            if x not in r:
                r.append(x)
    if not r:
        return F
    for x in r:
        if neg(x) in r:
            return T
    if len(r) == 1:
        return r[0]
    return C("or", tuple(r))


def bvar(name):
    return C("bvar", (name,))


# ---------------------------------------------------------------- functions
def app(name, *args, sort="R"):
    return A(atom("app", name, tuple(args), sort))


def is_sq(n):
    return n >= 0 and isqrt(n) ** 2 == n


def mk_sqrt(p):
    p = lift(p)
    c = p.const()
    if c is not None and c >= 0 and is_sq(c.numerator) and is_sq(c.denominator):
        return K(Fr(isqrt(c.numerator), isqrt(c.denominator)))
    if p.is_zero():
        return ZERO
    lc = abs(p.t[lead(p)])
    # largest rational square factor of the leading coefficient
    n, d = lc.numerator * lc.denominator, lc.denominator
    s = 1
    f = 2
    m = n
    while f * f <= m and f < 2000:
        while m % (f * f) == 0:
            m //= f * f
            s *= f
        f += 1
    if is_sq(m):
        s *= isqrt(m)
        m = 1
    k = Fr(s, d)
    q = P({mm: cc / (k * k) for mm, cc in p.t.items()})
    return K(k) * app("sqrt", q)


def mk_pow(x, y):
    x, y = lift(x), lift(y)
    cy = y.const()
    if cy is not None and cy.denominator == 1 and abs(cy) <= 64:
        if cy == 0:
            return ONE
        return x ** int(cy)
    if cy is not None and cy == Fr(1, 2):
        return mk_sqrt(x)
    if cy is not None and cy == Fr(-1, 2):
        return inv(mk_sqrt(x))
    cx = x.const()
    if cx == 1:
        return ONE
    if x == EULER:
        return mk_exp(y)
    # x^(q + k) = x^k x^q for the integer part k of the constant term
    k0 = y.t.get((), Fr(0))
    k = k0.numerator // k0.denominator
    if k and abs(k) <= 64 and (cx is not None or len(x.t) == 1):
        return (x ** k) * mk_pow(x, y - K(k))
    return app("pow", x, y)


def mk_exp(y):
    y = lift(y)
    if y.is_zero():
        return ONE
    return app("pow", EULER, y)


def split_pi(p):
    """p = pi*q + r with the rational constant part c of q separated: (c, rest)"""
    pm = ((PI_ID, 1),)
    c = p.t.get(pm, Fr(0))
    rest = P({m: x for m, x in p.t.items() if m != pm})
    return c, rest


def _trig(kind, p):
    """canonical sin/cos: sin(c pi + r), cos(c pi + r)"""
    p = lift(p)
    c, r = split_pi(p)
    sgn = 1
    if r.is_zero():
        # exact values for multiples of pi/6 and pi/4
        c = c % 2
        tbl = {Fr(0): (0, 1), Fr(1, 2): (1, 0), Fr(1): (0, -1), Fr(3, 2): (-1, 0)}
        if c in tbl:
            return K(tbl[c][0 if kind == "sin" else 1])
        tbl6 = {Fr(1, 6): Fr(1, 2), Fr(5, 6): Fr(1, 2), Fr(7, 6): Fr(-1, 2), Fr(11, 6): Fr(-1, 2)}
        if kind == "sin" and c in tbl6:
            return K(tbl6[c])
        tbl3 = {Fr(1, 3): Fr(1, 2), Fr(5, 3): Fr(1, 2), Fr(2, 3): Fr(-1, 2), Fr(4, 3): Fr(-1, 2)}
        if kind == "cos" and c in tbl3:
            return K(tbl3[c])
    # leading sign of r
    if not r.is_zero() and r.t[lead(r)] < 0:
        r = -r
        c = -c
        if kind == "sin":
            sgn = -sgn
    # shift by multiples of pi/2 into [0, 1/2)
    q = (c * 2).numerator // (c * 2).denominator
    c = c - Fr(q, 2)
    q %= 4
    for _ in range(q):
        # f(x + pi/2): sin -> cos, cos -> -sin
        if kind == "sin":
            kind = "cos"
        else:
            kind = "sin"
            sgn = -sgn
    if r.is_zero() and c == 0:
        return K(sgn * (0 if kind == "sin" else 1))
    if r.is_zero() and c > Fr(1, 4):
        # only r = 0: reflect into (0, 1/4]
        c = Fr(1, 2) - c
        kind = "cos" if kind == "sin" else "sin"
    arg = PI * c + r
    return K(sgn) * app(kind, arg)


def mk_sin(p):
    return _trig("sin", p)


def mk_cos(p):
    return _trig("cos", p)


def mk_gamma(p):
    p = lift(p)
    c = p.const()
    if c is not None and c.denominator == 1 and 0 < c <= 30:
        r = 1
        for i in range(2, int(c)):
            r *= i
        return K(r)
    if c is not None and c == Fr(1, 2):
        return mk_sqrt(PI)
    k0 = p.t.get((), Fr(0))
    # bring the constant part into (m - 1, m], m = the sum of the coefficients of the rest (at least
    # 1): arguments such as alpha + beta + 2 (alpha, beta > -1) then stay away from the poles
    m = sum((x for t, x in p.t.items() if t), Fr(0))
    m = max(1, m.numerator // m.denominator) if m <= 8 else 1
    k0 = k0 - (m - 1)
    k = -((-k0).numerator // (-k0).denominator) - 1
    if k and abs(k) <= 40:
        q = p - K(k)
        r = mk_gamma(q)
        if k > 0:
            for i in range(k):
                r = r * (q + i)
        else:
            for i in range(-k):
                r = r / (q - 1 - i)
        return r
    return app("gamma", p)


def is_int(p):
    """integer valued (syntactically)"""
    for m, c in p.t.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if e < 0 or ATOMS[a].sort != "I":
                return False
    return True


def mk_idiv(p, q):
    """floor division of integers, q > 0 intended"""
    p, q = lift(p), lift(q)
    cq = q.const()
    cp = p.const()
    if cq is not None and cq > 0 and cq.denominator == 1:
        if cp is not None and cp.denominator == 1:
            return K(cp.numerator // cq.numerator)
        # split off multiples
        n = int(cq)
        out = {}
        rem = {}
        for m, c in p.t.items():
            c = int(c)
            k = c // n
            r = c - k * n
            if k:
                out[m] = Fr(k)
            if r:
                rem[m] = Fr(r)
        rp = P(rem)
        rc = rp.const()
        if rc is not None:
            return P(out) + K(rc.numerator // n)
        return P(out) + app("idiv", rp, q, sort="I")
    return app("idiv", p, q, sort="I")


def mk_mod(p, q):
    p, q = lift(p), lift(q)
    return p - q * mk_idiv(p, q)


def mk_abs(p):
    p = lift(p)
    c = p.const()
    if c is not None:
        return K(abs(c))
    if p.t[lead(p)] < 0:
        p = -p
    return app("abs", p, sort="I" if is_int(p) else "R")


def mk_ite(c, a, b):
    if c.op == "true":
        return a
    if c.op == "false":
        return b
    a, b = lift(a), lift(b)
    if a == b:
        return a
    if c.op == "not":
        return mk_ite(c.a[0], b, a)
    if c.op == "<=":
        # canonical orientation: p <= 0  ==  not (-p < 0)
        return mk_ite(lt0(-c.a[0]), b, a)
    sort = "I" if is_int(a) and is_int(b) else "R"
    return A(atom("ite", "ite", (c, a, b), sort))


def mk_min(a, b):
    a, b = lift(a), lift(b)
    return mk_ite(lt(b, a), b, a)


def mk_max(a, b):
    a, b = lift(a), lift(b)
    return mk_ite(lt(a, b), b, a)


# ---------------------------------------------------------------- sums
def bv(level):
    return atom("var", ("%", level), (), "I")


_bern = [Fr(1)]


def bernoulli(n):
    from math import comb
    while len(_bern) <= n:
        m = len(_bern)
        _bern.append(-sum(comb(m + 1, k) * _bern[k] for k in range(m)) / Fr(m + 1))
    return _bern[n]


def faulhaber(k, n):
    """sum_{j=0}^{n-1} j^k as a polynomial in n"""
    from math import comb
    r = ZERO
    for i in range(k + 1):
        r = r + K(Fr(comb(k + 1, i)) * bernoulli(i) / (k + 1)) * n ** (k + 1 - i)
    return r


def skey(p):
    """a structural key that does not depend on atom numbering order"""
    return show(p)


def mk_sum(hi, body, x):
    """sum_{x=0}^{hi-1} body; x an Int variable atom (valid for hi >= 0)"""
    hi = lift(hi)
    ch = hi.const()
    if ch is not None and ch <= 64:
        r = ZERO
        for j in range(int(ch)):
            r = r + subst(body, {x.id: K(j)})
        return r
    res = ZERO
    for m, c in body.t.items():
        dep, ind = [], []
        for a, e in m:
            (dep if x.id in ATOMS[a].fv else ind).append((a, e))
        coef = norm_mono(tuple(ind), c)
        if not dep:
            res = res + coef * hi
        elif len(dep) == 1 and dep[0][0] == x.id and dep[0][1] > 0:
            res = res + coef * faulhaber(dep[0][1], hi)
        else:
            res = res + coef * _sum_atom(hi, P({tuple(dep): Fr(1)}), x)
    return res


def _sum_atom(hi, body, x):
    rev = subst(body, {x.id: hi - 1 - A(x)})
    cands = [body]
    if len(rev.t) == 1 and next(iter(rev.t.values())) == 1:
        cands.append(rev)
    best = None
    for b in cands:
        lvl = max(b.lvl, hi.lvl)
        y = bv(lvl)
        bb = subst(b, {x.id: A(y)}) if y.id != x.id else b
        k = skey(bb)
        if best is None or k < best[0]:
            best = (k, bb, y)
    _, bb, y = best
    return A(atom("sum", "sum", (hi, bb, y.id)))


# ---------------------------------------------------------------- substitution
def subst(p, s):
    """substitute variables (atom id -> P) in a P or C"""
    if not s:
        return p
    keys = frozenset(s)
    if not (p.fv & keys):
        return p
    memo = {}
    return _subst(p, s, keys, memo)


def _subst(p, s, keys, memo):
    if isinstance(p, C):
        if p.op in ("true", "false", "bvar"):
            return p
        a = tuple(_subst(x, s, keys, memo) for x in p.a)
        return mk_c(p.op, a)
    if not (p.fv & keys):
        return p
    if p in memo:
        return memo[p]
    r = ZERO
    for m, c in p.t.items():
        t = K(c)
        ind = []
        for a, e in m:
            if ATOMS[a].fv & keys:
                t = t * (subst_atom(a, s, keys, memo) ** e)
            else:
                ind.append((a, e))
        if ind:
            t = t * P({tuple(ind): Fr(1)})
        r = r + t
    memo[p] = r
    return r


def mk_c(op, a):
    if op == "=":
        return eq0(a[0])
    if op == "<":
        return lt0(a[0])
    if op == "<=":
        return le0(a[0])
    if op == "not":
        return neg(a[0])
    if op == "and":
        return conj(*a)
    if op == "or":
        return disj(*a)
    raise ValueError(op)


def subst_any(x, s, keys, memo):
    if isinstance(x, (P, C)):
        return _subst(x, s, keys, memo) if x.fv & keys else x
    if isinstance(x, tuple):
        return tuple(subst_any(y, s, keys, memo) for y in x)
    return x


def subst_atom(a, s, keys, memo):
    k = ATOMS[a]
    if k.kind == "var":
        return s.get(a, A(k))
    if k.kind == "sum":
        hi, body, y = k.args
        # rename the bound variable away from everything in s
        lv = max([body.lvl, hi.lvl] + [v.lvl for v in s.values()]) + 1
        z = bv(lv + 1000)
        b2 = subst(body, {y: A(z)})
        s2 = {q: v for q, v in s.items() if q != z.id}
        b3 = subst(b2, s2)
        return mk_sum(subst(hi, s), b3, z)
    args = tuple(subst_any(x, s, keys, memo) for x in k.args)
    return rebuild(k, args)


def rebuild(k, args):
    if k.kind == "poly":
        return args[0]
    if k.kind == "ite":
        return mk_ite(*args)
    n = k.name
    f = BUILD.get(n)
    if f:
        return f(*args)
    return A(atom(k.kind, n, args, k.sort))


BUILD = {"sqrt": mk_sqrt, "pow": mk_pow, "sin": mk_sin, "cos": mk_cos, "gamma": mk_gamma,
         "idiv": mk_idiv, "abs": mk_abs}


def map_atoms(p, f, memo=None):
    """rebuild p bottom-up, f(atom) -> P or None"""
    if memo is None:
        memo = {}
    if isinstance(p, C):
        if p.op in ("true", "false", "bvar"):
            return p
        a = tuple(map_atoms(x, f, memo) for x in p.a)
        return p if all(x is y for x, y in zip(a, p.a)) else mk_c(p.op, a)
    r = memo.get(p)
    if r is not None:
        return r
    ch = {}
    for m in p.t:
        for a, _ in m:
            if a in ch:
                continue
            v = memo.get(a)
            if v is None:
                k = ATOMS[a]
                v = f(k)
                if v is None:
                    if k.kind == "sum":
                        hi, body, y = k.args
                        h2, b2 = map_atoms(hi, f, memo), map_atoms(body, f, memo)
                        v = a if h2 is hi and b2 is body else mk_sum(h2, b2, ATOMS[y])
                    elif k.args:
                        args = tuple(map_atoms(x, f, memo) if isinstance(x, (P, C)) else x for x in k.args)
                        v = a if all(x is y for x, y in zip(args, k.args)) else rebuild(k, args)
                    else:
                        v = a
                elif len(v.t) == 1 and v.t.get(((a, 1),)) == 1:
                    v = a
                memo[a] = v
            ch[a] = v
    if all(v == a and not isinstance(v, P) for a, v in ch.items()):
        memo[p] = p
        return p
    r = ZERO
    for m, c in p.t.items():
        t = K(c)
        keep = []
        for a, e in m:
            v = ch[a]
            if isinstance(v, P):
                t = t * v ** e
            else:
                keep.append((a, e))
        if keep:
            t = t * P({tuple(keep): Fr(1)})
        r = r + t
    memo[p] = r
    return r


def all_atoms(p, acc=None):
    """every atom occurring anywhere in p"""
    if acc is None:
        acc = {}
    if isinstance(p, C):
        for x in p.a:
            if isinstance(x, (P, C)):
                all_atoms(x, acc)
        return acc
    if isinstance(p, tuple):
        for x in p:
            if isinstance(x, (P, C, tuple)):
                all_atoms(x, acc)
        return acc
    for m in p.t:
        for a, _ in m:
            if a not in acc:
                acc[a] = ATOMS[a]
                for x in ATOMS[a].args:
                    if isinstance(x, (P, C, tuple)):
                        all_atoms(x, acc)
    return acc


# ---------------------------------------------------------------- printing
def show_name(n):
    if isinstance(n, tuple) and n and n[0] == "%":
        return "%%%d" % n[1]
    return str(n)


@functools.lru_cache(maxsize=200000)
def show_atom(a):
    if a.kind == "var":
        return show_name(a.name)
    if a.kind == "poly":
        return "(%s)" % show(a.args[0])
    if a.kind == "ite":
        return "ite(%r, %s, %s)" % (a.args[0], show(a.args[1]), show(a.args[2]))
    if a.kind == "sum":
        return "Sum[%s<%s](%s)" % (show_name(ATOMS[a.args[2]].name), show(a.args[0]), show(a.args[1]))
    return "%s(%s)" % (show_name(a.name), ", ".join(show(x) if isinstance(x, P) else repr(x) for x in a.args))


def show(p):
    if not p.t:
        return "0"
    out = []
    for m, c in p.t.items():
        fs = []
        for a, e in m:
            s = show_atom(ATOMS[a])
            fs.append(s if e == 1 else "%s^%d" % (s, e))
        fs.sort()
        s = "*".join(fs)
        if not fs:
            s = str(c)
        elif c == -1:
            s = "-" + s
        elif c != 1:
            s = "%s*%s" % (c, s)
        out.append(s)
    out.sort()
    r = out[0]
    for s in out[1:]:
        r += (" - " + s[1:]) if s.startswith("-") else (" + " + s)
    return r
