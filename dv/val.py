"""Values of the symbolic executor."""
from fractions import Fraction as Fr
from term import *


class Unsupported(Exception):
    """the code uses something the verifier has no semantics or contract for"""


class Agg:
    """aggregate: tag names the type, var the variant, f the fields"""
    __slots__ = ("tag", "var", "f")

    def __init__(self, tag, f, var=0):
        self.tag, self.f, self.var = tag, tuple(f), var

    def __eq__(self, o):
        return self is o or (isinstance(o, Agg) and self.tag == o.tag and self.var == o.var and self.f == o.f)

    def __hash__(self):
        return hash((self.tag, self.var, self.f))

    def __repr__(self):
        return "%s#%d%r" % (self.tag, self.var, self.f)


class Ref:
    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, tuple(path)

    def __eq__(self, o):
        return isinstance(o, Ref) and self.cell == o.cell and self.path == o.path

    def __hash__(self):
        return hash((self.cell, self.path))

    def ext(self, *e):
        return Ref(self.cell, self.path + e)

    def __repr__(self):
        return "&%r%r" % (self.cell, self.path)


class FnV:
    """a function item"""
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn

    def __eq__(self, o):
        return isinstance(o, FnV) and self.fn.get("id") == o.fn.get("id") and self.fn.get("variant") == o.fn.get("variant")

    def __hash__(self):
        return hash(self.fn.get("id"))

    def __repr__(self):
        return "fn %s" % self.fn.get("path")


class Opq:
    """an opaque constant (strings, unknown constants) or the opaque integrand"""
    __slots__ = ("kind", "name")

    def __init__(self, kind, name):
        self.kind, self.name = kind, name

    def __eq__(self, o):
        return isinstance(o, Opq) and self.kind == o.kind and self.name == o.name

    def __hash__(self):
        return hash((self.kind, self.name))

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.name)


class _Undef:
    def __repr__(self):
        return "undef"


UNDEF = _Undef()

TABLES = {}      # name -> list of exact rationals


class Arr:
    """functional array of dimension 1 (slice, vector) or 2 (matrix).

    dims: lengths; base: ('comp', (vars), body) | ('lst', values) | ('slot', id, template) ;
    ops: updates (vars, cond, path, value): where cond holds, element.path becomes value.
    """
    __slots__ = ("dims", "base", "ops", "name")

    def __init__(self, dims, base, ops=(), name=None):
        self.dims, self.base, self.ops, self.name = tuple(dims), base, tuple(ops), name

    def __eq__(self, o):
        return self is o or (isinstance(o, Arr) and self.dims == o.dims and self.base == o.base and self.ops == o.ops)

    def __hash__(self):
        return hash((self.dims, self.ops))

    def __repr__(self):
        return "Arr(%r, %r, %d ops)" % (self.dims, self.base[0] if self.base[0] == "lst" else self.base, len(self.ops))

    @property
    def len(self):
        return self.dims[0]

    def get(self, *ix):
        v = self._base(ix)
        for vs, cond, path, val in self.ops:
            s = {a.id: i for a, i in zip(vs, ix)}
            c = subst(cond, s)
            if c.op == "false":
                continue
            v = vite(c, vset(v, path, vsubst(val, s)), v)
        return v

    def _base(self, ix):
        k = self.base[0]
        if k == "comp":
            return vsubst(self.base[2], {a.id: i for a, i in zip(self.base[1], ix)})
        if k == "lst":
            l = self.base[1]
            c = ix[0].const()
            if c is not None:
                if c.denominator != 1 or not 0 <= c < len(l):
                    if not l:
                        raise Unsupported("read of an empty array")
                    return l[0]     # out of bounds: a separate obligation reports it
                return l[int(c)]
            if len(l) <= 6:
                if not l:
                    raise Unsupported("read of an empty array")
                v = l[-1]
                for q in range(len(l) - 2, -1, -1):
                    v = vite(eq(ix[0], q), l[q], v)
                return v
            if all(isinstance(x, P) and x.const() is not None for x in l):
                vals = tuple(x.const() for x in l)
                nm = self.name or ("tab%x" % (hash(vals) & 0xffffffff))
                if TABLES.get(nm, vals) != vals:
                    nm = "tab%x" % (hash(vals) & 0xffffffffffff)
                TABLES[nm] = vals
                return app(("tab", nm), ix[0])
            raise Unsupported("symbolic index into a constant table of references")
        if k == "slot":
            return vtemplate(self.base[2], lambda leaf, pth: app(("slot", self.base[1], pth), *ix, sort=leaf_sort(leaf)))
        raise Unsupported(k)

    def store(self, ix, path, val):
        vs = tuple(fresh_ix(i) for i in range(len(self.dims)))
        if self.base[0] == "lst" and not self.ops and ix[0].const() is not None and not any(
                isinstance(x, P) for x in path):
            l = list(self.base[1])
            c = int(ix[0].const())
            if 0 <= c < len(l):
                l[c] = vset(l[c], path, val)
            return Arr(self.dims, ("lst", tuple(l)))
        cond = conj(*[eq(A(a), i) for a, i in zip(vs, ix)])
        return Arr(self.dims, self.base, self.ops + ((vs, cond, path, val),), self.name)

    def push(self, val):
        if self.base[0] == "lst" and not self.ops:
            return Arr((self.dims[0] + 1,), ("lst", self.base[1] + (val,)))
        vs = (fresh_ix(0),)
        cond = eq(A(vs[0]), self.dims[0])
        return Arr((self.dims[0] + 1,), self.base, self.ops + ((vs, cond, (), val),), self.name)


def comp(dims, vs, body):
    return Arr(dims, ("comp", tuple(vs), body))


def mklist(vals):
    return Arr((K(len(vals)),), ("lst", tuple(vals)))


_ixn = [0]


def fresh_ix(i):
    _ixn[0] += 1
    return atom("var", ("ix", _ixn[0]), (), "I")


_freshn = [0]


def fresh(name="k", sort="I"):
    _freshn[0] += 1
    return atom("var", "%s!%d" % (name, _freshn[0]), (), sort)


def leaf_sort(l):
    return "I" if isinstance(l, P) and is_int(l) else "R"


# ---------------------------------------------------------------- generic operations
def vmap(v, f):
    """apply f to every P / C leaf"""
    if isinstance(v, (P, C)):
        return f(v)
    if isinstance(v, Agg):
        return Agg(v.tag, tuple(vmap(x, f) for x in v.f), v.var)
    if isinstance(v, Ref):
        return Ref(v.cell, tuple(tuple(f(y) if isinstance(y, P) else y for y in e) for e in v.path))
    if isinstance(v, Arr):
        dims = tuple(f(d) for d in v.dims)
        if v.base[0] == "comp":
            base = ("comp", v.base[1], vmap(v.base[2], f))
        elif v.base[0] == "lst":
            if v.name is not None:
                base = v.base
            else:
                base = ("lst", tuple(vmap(x, f) for x in v.base[1]))
        else:
            base = v.base
        ops = tuple((vs, f(c), pth, vmap(x, f)) for vs, c, pth, x in v.ops)
        return Arr(dims, base, ops, v.name)
    return v


def vsubst(v, s):
    if not s:
        return v
    return vmap(v, lambda x: subst(x, s))


def vite(c, a, b):
    if c.op == "true":
        return a
    if c.op == "false":
        return b
    if a is b or a == b:
        return a
    if isinstance(a, P) and isinstance(b, P):
        return mk_ite(c, a, b)
    if isinstance(a, C) and isinstance(b, C):
        return disj(conj(c, a), conj(neg(c), b))
    if isinstance(a, Agg) and isinstance(b, Agg) and a.tag == b.tag and a.var == b.var and len(a.f) == len(b.f):
        return Agg(a.tag, tuple(vite(c, x, y) for x, y in zip(a.f, b.f)), a.var)
    if isinstance(a, Arr) and isinstance(b, Arr) and len(a.dims) == len(b.dims):
        vs = tuple(fresh_ix(i) for i in range(len(a.dims)))
        ix = [A(x) for x in vs]
        return comp(tuple(mk_ite(c, x, y) for x, y in zip(a.dims, b.dims)), vs, vite(c, a.get(*ix), b.get(*ix)))
    if isinstance(a, Ref) and isinstance(b, Ref) and a.cell == b.cell and len(a.path) == len(b.path):
        pth = []
        for x, y in zip(a.path, b.path):
            if len(x) != len(y) or x[0] != y[0]:
                break
            pth.append((x[0],) + tuple(mk_ite(c, p, q) if isinstance(p, P) and isinstance(q, P) else p
                                       for p, q in zip(x[1:], y[1:])))
            if any(not isinstance(p, P) and p != q for p, q in zip(x[1:], y[1:])):
                break
        else:
            return Ref(a.cell, pth)
    if a is UNDEF or b is UNDEF:
        return UNDEF
    raise Unsupported("cannot merge %s and %s" % (type(a).__name__, type(b).__name__))


def vset(v, path, val):
    if not path:
        return val
    e = path[0]
    if e[0] == "f":
        f = list(v.f)
        f[e[1]] = vset(f[e[1]], path[1:], val)
        return Agg(v.tag, f, v.var)
    raise Unsupported("nested update")


def vtemplate(t, leaf, pth=()):
    """rebuild the shape of t with new leaves"""
    if isinstance(t, P):
        return leaf(t, pth)
    if isinstance(t, Agg):
        return Agg(t.tag, tuple(vtemplate(x, leaf, pth + (i,)) for i, x in enumerate(t.f)), t.var)
    raise Unsupported("array element shape")


def leaves(v, pth=()):
    """(path, leaf) for all leaves; Arr counts as one leaf"""
    if isinstance(v, Agg):
        for i, x in enumerate(v.f):
            yield from leaves(x, pth + (("a", i),))
    elif isinstance(v, Ref):
        for i, e in enumerate(v.path):
            for j, y in enumerate(e):
                if isinstance(y, P):
                    yield pth + (("r", i, j),), y
    elif isinstance(v, (P, C, Arr)):
        yield pth, v


def leaf_set(v, pth, x):
    if not pth:
        return x
    e = pth[0]
    if e[0] == "a":
        f = list(v.f)
        f[e[1]] = leaf_set(f[e[1]], pth[1:], x)
        return Agg(v.tag, f, v.var)
    p = [list(q) for q in v.path]
    p[e[1]][e[2]] = x
    return Ref(v.cell, [tuple(q) for q in p])


def leaf_get(v, pth):
    for e in pth:
        if e[0] == "a":
            v = v.f[e[1]]
        else:
            v = v.path[e[1]][e[2]]
    return v


def shape_eq(a, b):
    """same constructor shape (leaves may differ)"""
    if a is b:
        return True
    if isinstance(a, P) and isinstance(b, P):
        return True
    if isinstance(a, C) and isinstance(b, C):
        return True
    if isinstance(a, Arr) and isinstance(b, Arr):
        return len(a.dims) == len(b.dims)
    if isinstance(a, Agg) and isinstance(b, Agg):
        return a.tag == b.tag and a.var == b.var and len(a.f) == len(b.f) and all(
            shape_eq(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.cell == b.cell and len(a.path) == len(b.path) and all(
            len(x) == len(y) and all(p == q or (isinstance(p, P) and isinstance(q, P)) for p, q in zip(x, y))
            for x, y in zip(a.path, b.path))
    return a == b


def tup(*xs):
    return Agg("tuple", xs)


UNIT = tup()


def some(v):
    return Agg("core::option::Option", (v,), 1)


NONE = Agg("core::option::Option", (), 0)


def ok(v):
    return Agg("core::result::Result", (v,), 0)


def err(v):
    return Agg("core::result::Result", (v,), 1)


LESS = Agg("core::cmp::Ordering", (), 0)
EQUAL = Agg("core::cmp::Ordering", (), 1)
GREATER = Agg("core::cmp::Ordering", (), 2)


def nz(p):
    return Agg("nz", (p,))
