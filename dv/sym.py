"""Symbolic executor over the dumped MIR: every function is executed for all inputs, loops
are closed by inductively verified closed forms, and each obligation met on the way is
recorded with the path condition under which it has to hold."""
import json, struct, math, sys, time
from fractions import Fraction as Fr
from term import *
from logic import *
from val import *
import term as T_

sys.setrecursionlimit(20000)

INT_RANGE = {
    "u8": (0, 2**8 - 1), "u16": (0, 2**16 - 1), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1),
    "u128": (0, 2**128 - 1), "usize": (0, 2**64 - 1),
    "i8": (-2**7, 2**7 - 1), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1),
    "i64": (-2**63, 2**63 - 1), "i128": (-2**127, 2**127 - 1), "isize": (-2**63, 2**63 - 1),
}


class State:
    __slots__ = ("cells", "pc")

    def __init__(self, cells, pc):
        self.cells, self.pc = cells, pc

    def fork(self, *cs):
        pc = self.pc
        for c in cs:
            if c.op == "true":
                continue
            for x in (c.a if c.op == "and" else (c,)):
                if x not in pc:
                    pc = pc + (x,)
        return State(dict(self.cells), pc)


class Ob:
    """an obligation and how it was discharged"""
    __slots__ = ("kind", "where", "text", "verdict", "cond", "pc")

    def __init__(self, kind, where, text, verdict, cond, pc):
        self.kind, self.where, self.text, self.verdict, self.cond, self.pc = kind, where, text, verdict, cond, pc


_fcache = {}


def named_rationals():
    t = {}
    for q in range(1, 121):
        for p in range(-400, 401):
            if math.gcd(p, q) == 1:
                t.setdefault(p / q, Fr(p, q))
    return t


def below(x):
    """the atoms of x at any depth"""
    seen, todo = set(), [x]
    while todo:
        y = todo.pop()
        if isinstance(y, P):
            ids = {a for m in y.t for a, _ in m}
            for a in ids - seen:
                seen.add(a)
                todo += ATOMS[a].args
        elif isinstance(y, C) or isinstance(y, tuple):
            todo += list(y.a) if isinstance(y, C) else list(y)
    return seen


def mentions(x, names):
    return any(ATOMS[a].kind == "app" and ATOMS[a].name in names for a in below(x))


def pow2(c):
    n, d = abs(c.numerator) if hasattr(c, "numerator") else abs(c), getattr(c, "denominator", 1)
    return n != 0 and n & (n - 1) == 0 and d & (d - 1) == 0


_NR = None
_PIT = None


def float_term(x):
    """the real number a literal stands for: a dyadic rational, a small rational whose
    nearest double it is, a rational multiple of pi, or e"""
    global _NR, _PIT
    r = _fcache.get(x)
    if r is not None:
        return r
    f = Fr(x)
    if f.denominator <= 1 << 20:
        r = K(f)
    else:
        if _NR is None:
            _NR = named_rationals()
            import mpmath
            _PIT = {}
            with mpmath.workdps(40):
                for q in range(1, 13):
                    for p in range(-24, 25):
                        if p and math.gcd(p, q) == 1:
                            v = mpmath.pi * p / q
                            _PIT[float(v)] = PI * Fr(p, q)
                _PIT[math.e] = EULER
                for q in (1, 2, 3, 4):
                    _PIT.setdefault(float(q / mpmath.pi), K(q) / PI)
                    _PIT.setdefault(float(1 / (q * mpmath.pi)), K(Fr(1, q)) / PI)
                _PIT.setdefault(float(mpmath.sqrt(2)), mk_sqrt(K(2)))
                _PIT.setdefault(float(1 / mpmath.sqrt(2)), inv(mk_sqrt(K(2))))
                _PIT.setdefault(float(mpmath.sqrt(mpmath.pi)), mk_sqrt(PI))
                _PIT.setdefault(float(2 / mpmath.sqrt(mpmath.pi)), K(2) / mk_sqrt(PI))
        if x in _PIT:
            r = _PIT[x]
        elif x in _NR:
            r = K(_NR[x])
        else:
            r = K(f)
    _fcache[x] = r
    return r


class Frame:
    __slots__ = ("body", "id", "entry", "loops", "nloc")


class Engine:
    MAX_UNROLL = 400

    def __init__(self, dump, contracts=None, consts_exact=False):
        self.d = dump
        self.types = dump["types"]
        self.adts = dump["adts"]
        self.by_id = {}
        self.by_path = {}
        for b in dump["bodies"]:
            self.by_id[b["id"]] = b
            self.by_path.setdefault(b["path"], b)
        self.contracts = contracts or {}
        self.obs = []
        self.quiet = 0
        self.depth = 0
        self.nframe = 0
        self.nheap = 0
        self.meta = {}
        self.fn_stack = []
        self.trusted = set()       # external functions used through their contract
        self.inlined = set()
        self.executed = set()
        self.used_contracts = set()
        self.steps = 0
        self.max_steps = 4000000
        self.consts_exact = consts_exact
        self.statics_val = {}
        self.konst = {}
        self.assert_facts = set()
        self.notes = set()
        import std
        self.std = std
        self.rounding = False      # results of floating-point operations are atoms "fl"
        self.blind = False         # C14: branches on floats go both ways, whatever the real value is
        self.seen = {}

    # ------------------------------------------------------------ obligations
    def where(self, line=None):
        if not self.fn_stack:
            return "?"
        b = self.fn_stack[-1]
        sp = (b.get("span") or "?").rsplit(":", 1)[0]
        return "%s (%s:%s)" % (b["path"], sp, line if line is not None else "?")

    def oblige(self, st, cond, kind, text, line=None):
        if self.quiet or cond.op == "true":
            if cond.op == "true" and not self.quiet:
                self.obs.append(Ob(kind, self.where(line), text, Verdict(True, "evaluation"), cond, ()))
            return
        v = decide(cond, st.pc)
        self.obs.append(Ob(kind, self.where(line), text, v, cond, st.pc))

    def split(self, st, c):
        """states where c holds / does not hold"""
        if c.op == "true":
            return [(True, st)]
        if c.op == "false":
            return [(False, st)]
        a = st.fork(c)
        b = st.fork(neg(c))
        if not feasible(a.pc):
            return [(False, b if has_eq(neg(c)) else st)]
        if not feasible(b.pc):
            return [(True, a if has_eq(c) else st)]
        return [(True, a), (False, b)]

    # ------------------------------------------------------------ types
    def ty(self, i):
        return self.types[i]

    def tys(self, i):
        return self.types[i].get("s", "?") if i is not None else "?"

    # ------------------------------------------------------------ constants
    def const(self, st, k):
        if "fn" in k and k["fn"] is not None:
            return FnV(k["fn"])
        if "promoted" in k:
            return self.promoted(st, k)
        if "v" in k and k["v"] is not None:
            return self.cval(st, k["v"], k.get("ty"))
        if "unk" in k:
            return Opq("const", k["unk"])
        raise Unsupported("constant %s" % json.dumps(k)[:80])

    def cval(self, st, v, ty=None):
        if "f" in v:
            h = v["f"]
            x = struct.unpack(">d", bytes.fromhex(h))[0] if len(h) == 16 else struct.unpack(">f", bytes.fromhex(h))[0]
            if x != x or x in (math.inf, -math.inf):
                return Opq("float", repr(x))
            return K(Fr(x)) if self.consts_exact else self.fl(float_term(x))
        if "n" in v:
            return K(int(v["n"]))
        if "b" in v:
            return T_.T if v["b"] else T_.F
        if "tuple" in v:
            return tup(*[self.cval(st, x) for x in v["tuple"]])
        if "arr" in v:
            return mklist([self.cval(st, x) for x in v["arr"]])
        if "adt" in v:
            if "NonZero" in v["adt"]:
                x = self.cval(st, v["fields"][0])
                while isinstance(x, Agg):
                    x = x.f[0]
                return nz(x)
            return Agg(v["adt"], [self.cval(st, x) for x in v["fields"]], v.get("var", 0))
        if "static" in v:
            return Ref(("static", v["static"]))
        if "ref" in v:
            x = self.cval(st, v["ref"])
            c = ("konst", len(self.konst))
            self.konst[c] = x
            return Ref(c)
        if "str" in v:
            return Opq("str", v["str"])
        if "closure" in v:
            return Agg("closure:" + v["closure"], ())
        if "fn" in v:
            return FnV(v["fn"])
        return Opq("const", json.dumps(v)[:200])

    def promoted(self, st, k):
        owner = self.by_id.get(k.get("of")) or self.fn_stack[-1]
        pb = owner["promoted"][k["promoted"]]
        body = {"id": owner["id"] + "::promoted%d" % k["promoted"], "path": owner["path"], "span": owner.get("span"),
                "body": pb, "promoted": owner.get("promoted", [])}
        self.quiet += 1
        try:
            rs = self.run_body(st, body, [], keep=True)
        finally:
            self.quiet -= 1
        if len(rs) != 1:
            raise Unsupported("promoted constant")
        s2, v = rs[0]
        st.cells.update(s2.cells)
        return v

    # ------------------------------------------------------------ memory
    def cell(self, st, c):
        if c in st.cells:
            return st.cells[c]
        if c[0] == "konst":
            return self.konst[c]
        if c[0] == "static":
            v = self.statics_val.get(c)
            if v is None:
                s = self.d["statics"].get(c[1])
                if s is None or s.get("v") is None:
                    raise Unsupported("static %s" % c[1])
                v = self.cval(st, s["v"])
                if isinstance(v, Arr):
                    v.name = c[1].split("::")[-1]
                self.statics_val[c] = v
            return v
        raise Unsupported("read of a dead cell %r" % (c,))

    def step_val(self, st, v, e):
        k = e[0]
        if k == "f":
            if isinstance(v, Agg):
                if e[1] >= len(v.f):
                    raise Unsupported("field %d of %s" % (e[1], v.tag))
                return v.f[e[1]]
            raise Unsupported("field of %s" % type(v).__name__)
        if k == "i":
            if isinstance(v, Arr):
                return v.get(e[1])
            raise Unsupported("index of %s" % type(v).__name__)
        if k == "m":
            return v.get(e[1], e[2])
        if k == "r":
            a = v
            if not isinstance(a, Arr):
                raise Unsupported("subslice of %s" % type(v).__name__)
            return self.subarr(a, e[1], e[2])
        raise Unsupported(k)

    def subarr(self, a, lo, hi):
        n = (hi - lo)
        if a.base[0] == "lst" and not a.ops and lo.const() is not None and hi.const() is not None:
            return Arr((n,), ("lst", a.base[1][int(lo.const()):int(hi.const())]))
        j = fresh_ix(0)
        return comp((n,), (j,), a.get(A(j) + lo))

    def read(self, st, ref):
        v = self.cell(st, ref.cell)
        off = None
        for e in self.norm_path(ref.path):
            v = self.step_val(st, v, e)
        return v

    def norm_path(self, path):
        """fold subslice steps into the following index step"""
        out = []
        pend = None
        for e in path:
            if e[0] == "r":
                pend = (e[1], e[2]) if pend is None else (pend[0] + e[1], pend[0] + e[2])
            elif e[0] == "i" and pend is not None:
                out.append(("i", e[1] + pend[0]))
                pend = None
            else:
                if pend is not None:
                    raise Unsupported("field of a slice")
                out.append(e)
        if pend is not None:
            out.append(("r",) + pend)
        return out

    def write(self, st, ref, val):
        if ref.cell[0] in ("static", "konst"):
            raise Unsupported("write to a static")
        path = self.norm_path(ref.path)
        if not path:
            st.cells[ref.cell] = val
            return
        st.cells[ref.cell] = self.upd(st, self.cell(st, ref.cell), path, val)

    def upd(self, st, v, path, val):
        e = path[0]
        rest = path[1:]
        if e[0] == "f":
            if v is UNDEF:
                raise Unsupported("partial initialisation")
            f = list(v.f)
            f[e[1]] = self.upd(st, f[e[1]], rest, val) if rest else val
            return Agg(v.tag, f, v.var)
        if e[0] in ("i", "m"):
            ix = e[1:]
            if all(x[0] == "f" for x in rest):
                return v.store(ix, tuple(rest), val)
            old = v.get(*ix)
            return v.store(ix, (), self.upd(st, old, rest, val))
        if e[0] == "r" and not rest and isinstance(val, Arr):
            j = fresh_ix(0)
            lo, hi = e[1], e[2]
            cond = conj(le(lo, A(j)), lt(A(j), hi))
            return Arr(v.dims, v.base, v.ops + (((j,), cond, (), val.get(A(j) - lo)),), v.name)
        raise Unsupported("write through %s" % e[0])

    def alloc(self, st, v):
        self.nheap += 1
        c = ("h", self.nheap)
        st.cells[c] = v
        return Ref(c)

    # ------------------------------------------------------------ places and operands
    def place(self, st, F, p, line=None):
        """a Ref for the place, or ('val', v) for pseudo places (Box pointers)"""
        ref = Ref((F.id, p[0]))
        ty = F.body["body"]["locals"][p[0]]
        for e in p[1]:
            t = self.types[ty] if ty is not None else {}
            if isinstance(ref, tuple):
                v = ref[1]
                if e == "*":
                    if not isinstance(v, Ref):
                        raise Unsupported("deref")
                    ref = v
                    ty = t.get("elem")
                    continue
                if isinstance(e, dict) and "f" in e:
                    ty = e.get("ty")
                    continue        # Unique / NonNull wrappers
                raise Unsupported("projection")
            if t.get("box") and t.get("args") and self.types[t["args"][0]].get("k") not in ("ref", "ptr"):
                ref = self.unalias(st, ref)
            if e == "*":
                if t.get("box"):
                    ty = t["args"][0] if t.get("args") else None
                    continue
                v = self.read(st, ref)
                if isinstance(v, Ref):
                    ref = v
                elif isinstance(v, Opq):
                    raise Unsupported("deref of %r" % (v,))
                elif v is UNDEF:
                    raise Unsupported("deref of undefined value")
                else:
                    raise Unsupported("deref of %s" % type(v).__name__)
                ty = t.get("elem")
            elif "f" in e:
                if t.get("box"):
                    ref = ("val", ref)
                    ty = e.get("ty")
                    continue
                ref = ref.ext(("f", e["f"]))
                ty = e.get("ty")
            elif "i" in e:
                i = self.read(st, Ref((F.id, e["i"])))
                ref = ref.ext(("i", i))
                ty = t.get("elem")
            elif "ci" in e:
                n = self.alen(st, ref)
                i = K(e["ci"]) if not e.get("end") else n - e["ci"]
                ref = ref.ext(("i", i))
                ty = t.get("elem")
            elif "ss" in e:
                n = self.alen(st, ref)
                hi = K(e["to"]) if not e.get("end") else n - e["to"]
                ref = ref.ext(("r", K(e["ss"]), hi))
            elif "v" in e:
                pass
            else:
                raise Unsupported("projection %s" % json.dumps(e))
        return ref

    def alen(self, st, ref):
        if ref.path and ref.path[-1][0] == "r":
            return ref.path[-1][2] - ref.path[-1][1]
        v = self.read(st, ref)
        if isinstance(v, Arr):
            return v.dims[0]
        raise Unsupported("length of %s" % type(v).__name__)

    def readp(self, st, F, p):
        r = self.place(st, F, p)
        if isinstance(r, tuple):
            return r[1]
        v = self.read(st, r)
        if v is UNDEF:
            raise Unsupported("read of an undefined value")
        return v

    def box_alias(self, st, F, s):
        """MIR copies a Box bitwise only to dereference it: the copy names the same allocation"""
        u = s["r"].get("use") if isinstance(s["r"], dict) else None
        if u is None or "c" not in u or s["p"][1]:
            return None
        t = self.types[F.body["body"]["locals"][s["p"][0]]]
        if not t.get("box") or not t.get("args") or self.types[t["args"][0]].get("k") in ("ref", "ptr"):
            return None
        r = self.place(st, F, u["c"])
        return None if isinstance(r, tuple) else self.unalias(st, r)

    def unalias(self, st, ref):
        v = self.read(st, ref)
        return v if isinstance(v, Ref) else ref

    def operand(self, st, F, o):
        if "c" in o:
            return self.readp(st, F, o["c"])
        if "m" in o:
            return self.readp(st, F, o["m"])
        if "k" in o:
            return self.const(st, o["k"])
        if "rc" in o:
            return T_.F
        raise Unsupported("operand")

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, F, r, line):
        if "use" in r:
            return self.operand(st, F, r["use"])
        if "ref" in r or "raw" in r:
            p = self.place(st, F, r.get("ref") or r.get("raw"))
            if isinstance(p, tuple):
                return p[1]
            return p
        if "bin" in r:
            return self.binop(st, r["bin"], self.operand(st, F, r["a"]), self.operand(st, F, r["b"]),
                              self.types[r["ty"]], line)
        if "agg" in r:
            os = [self.operand(st, F, o) for o in r["o"]] if "o" in r else []
            a = r["agg"]
            if a == "tuple":
                return tup(*os)
            if a == "array":
                return mklist(os)
            if a == "adt":
                return Agg(r["adt"], os, r.get("var") or 0)
            if a == "closure":
                return Agg("closure:" + r["id"], os)
            if a == "rawptr":
                return os[0]
            raise Unsupported("aggregate")
        if "cast" in r:
            return self.cast(st, r, self.operand(st, F, r["o"]), line)
        if "un" in r:
            v = self.operand(st, F, r["a"])
            if r["un"] == "Neg":
                if isinstance(v, P):
                    t = self.types[r["ty"]]
                    if t["k"] == "int":
                        self.oblige(st, lt(INT_RANGE[t["s"]][0], v), "overflow", "negation does not overflow", line)
                    return -v
                raise Unsupported("negation")
            if r["un"] == "Not":
                if isinstance(v, C):
                    return neg(v)
                if isinstance(v, Opq) and v.kind == "address":
                    return v
                raise Unsupported("bitwise not")
            if r["un"] == "PtrMetadata":
                return self.alen(st, v)
            raise Unsupported(r["un"])
        if "discr" in r:
            v = self.readp(st, F, r["discr"])
            return self.discr(v)
        if "repeat" in r:
            v = self.operand(st, F, r["repeat"])
            if r.get("n") is None:
                raise Unsupported("generic array length")
            return mklist([v] * int(r["n"]))
        raise Unsupported("rvalue %s" % json.dumps(r)[:80])

    def discr(self, v):
        if isinstance(v, Agg):
            ad = self.adts.get(v.tag)
            if ad and ad["kind"] == "enum":
                dv = ad["variants"][v.var].get("discr")
                return K(dv if dv is not None else v.var)
            return K(v.var)
        raise Unsupported("discriminant of %s" % type(v).__name__)

    def binop(self, st, op, a, b, t, line):
        if any(isinstance(x, Opq) and x.kind == "address" for x in (a, b)):
            return Opq("address", "")
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.compare(st, op, a, b)
        if isinstance(a, C) and isinstance(b, C):
            if op == "BitAnd":
                return conj(a, b)
            if op == "BitOr":
                return disj(a, b)
            if op == "BitXor":
                return disj(conj(a, neg(b)), conj(neg(a), b))
        if not (isinstance(a, P) and isinstance(b, P)):
            if isinstance(a, Opq) or isinstance(b, Opq):
                raise Unsupported("arithmetic on %r, %r" % (a, b))
            raise Unsupported("%s on %s" % (op, type(a).__name__))
        if t["k"] == "float":
            v = self.fl(self.fbin(st, op, a, b, line))
            return self.f32(st, v) if t["s"] == "f32" else v
        rng = INT_RANGE.get(t["s"])
        if rng is None:
            raise Unsupported("integer type %s" % t["s"])
        ov = op.endswith("WithOverflow")
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base in ("Add", "Sub", "Mul"):
            v = a + b if base == "Add" else (a - b if base == "Sub" else a * b)
            bad = disj(lt(v, rng[0]), lt(rng[1], v))
            # one-sided simplification for unsigned arithmetic
            if ov:
                return tup(v, bad)
            self.oblige(st, neg(bad), "overflow", "%s does not overflow" % base, line)
            return v
        if base == "Div":
            self.oblige(st, neg(eq0(b)), "division", "divisor is not zero", line)
            if rng[0] < 0 and not (entails(st.pc, le(0, a)) and entails(st.pc, lt(0, b))):
                raise Unsupported("signed division")
            return mk_idiv(a, b)
        if base == "Rem":
            self.oblige(st, neg(eq0(b)), "division", "divisor is not zero", line)
            if rng[0] < 0 and not (entails(st.pc, le(0, a)) and entails(st.pc, lt(0, b))):
                raise Unsupported("signed remainder")
            return mk_mod(a, b)
        if base == "Shr" and b.const() is not None:
            return mk_idiv(a, K(2 ** int(b.const())))
        if base == "Shl" and b.const() is not None:
            v = a * 2 ** int(b.const())
            if not entails(st.pc, le(v, rng[1])):
                raise Unsupported("shift out of range")
            return v
        if base == "BitAnd" and b.const() == 1:
            return mk_mod(a, K(2))
        if base == "BitAnd" and a.const() == 1:
            return mk_mod(b, K(2))
        ca, cb = a.const(), b.const()
        if ca is not None and cb is not None:
            x, y = int(ca), int(cb)
            if base == "BitAnd":
                return K(x & y)
            if base == "BitOr":
                return K(x | y)
            if base == "BitXor":
                return K(x ^ y)
        raise Unsupported("integer %s" % op)

    def fbin(self, st, op, a, b, line):
        if op == "Add":
            return a + b
        if op == "Sub":
            return a - b
        if op == "Mul":
            return a * b
        if op == "Div":
            return self.fdiv(st, a, b, line)
        if op == "Rem":
            self.oblige(st, neg(eq0(b)), "defined", "float remainder by a nonzero value", line)
            return a - b * app("trunc", a / b, sort="I")
        raise Unsupported("float %s" % op)

    def fl(self, p, kind="fl"):
        """rounding mode: the result of a floating-point operation whose exact value on its arguments is p.  Exact (below
        2^50): integers and quarters of integers, and scaling by powers of two"""
        if not self.rounding or not isinstance(p, P):
            return p
        if self.rounding == "points" and mentions(p, ("f", "w")):      # only the sample points are rounded
            return p
        c = p.const()
        if c is not None:
            return p if Fr(float(c)) == c else app(kind, p)
        if kind == "fl":
            if len(p.t) == 1:
                (m, c), = p.t.items()
                if len(m) == 1 and m[0][1] == 1 and pow2(c) and ATOMS[m[0][0]].name in ("fl", "fl1"):
                    return p
            if all(c.denominator in (1, 2, 4) and all(e > 0 and ATOMS[a].sort == "I" for a, e in m)
                   for m, c in p.t.items()) and all(sum(e for _, e in m) <= 1 for m in p.t):
                return p
            if is_var(p):
                return p
        return app(kind, p)

    def fdiv(self, st, a, b, line=None):
        c = b.const()
        if c is None or c == 0:
            if c == 0 or (is_z(b)):
                self.oblige(st, T_.F, "defined", "divisor is not zero", line)
                raise Unsupported("division by zero")
            self.oblige(st, neg(eq0(b)), "defined", "divisor %s is not zero" % show(b)[:120], line)
        return a / b

    def compare(self, st, op, a, b):
        if isinstance(a, Opq) and a.kind == "float" or isinstance(b, Opq) and b.kind == "float":
            return self.cmp_special(op, a, b)
        if isinstance(a, P) and isinstance(b, P):
            f = {"Eq": eq, "Lt": lt, "Le": le, "Gt": gt, "Ge": ge}
            if op == "Ne":
                return neg(self.blinded(st, "Eq", eq(a, b), a, b))
            return self.blinded(st, op, f[op](a, b), a, b)
        if isinstance(a, C) and isinstance(b, C):
            e = disj(conj(a, b), conj(neg(a), neg(b)))
            if op == "Eq":
                return e
            if op == "Ne":
                return neg(e)
        raise Unsupported("comparison of %s" % type(a).__name__)

    def blinded(self, st, op, c, *xs):
        """the condition c on values xs; where rounding may decide it differently (and for NaN), an
        unknown truth value -- the same one whenever the same comparison is made again"""
        if any(mentions(x, ("f",)) for x in xs) and (op[:3] == "is_" and op not in ("is_sign_negative", "is_sign_positive") or
                                                    len(xs) == 2 and xs[0] == xs[1] and op == "Eq"):
            return self.unknown(op, xs)      # the integrand may return NaN or an infinity
        if not self.blind or c.op in ("true", "false") and all(x.const() is not None for x in xs) or all(is_int(x) for x in xs):
            return c
        if len(xs) == 2 and xs[0] != xs[1] and all(x.const() is not None or is_var(x) for x in xs) and (entails(st.pc, c) or entails(st.pc, neg(c))):
            return c
        if op in ("Gt", "Ge") and len(xs) == 2:
            op, xs = {"Gt": "Lt", "Ge": "Le"}[op], xs[::-1]
        return self.unknown(op, xs)

    def unknown(self, op, xs):
        k = (op,) + xs
        if k not in self.seen:
            self.seen[k] = bvar(str(fresh("float_test", "I").name))
        return self.seen[k]

    def cmp_special(self, op, a, b):
        """comparisons of a finite value with an infinite constant"""
        if isinstance(b, Opq) and b.kind == "float" and isinstance(a, P):
            if b.name == "inf":
                return {"Lt": T_.T, "Le": T_.T, "Ne": T_.T}.get(op, T_.F)
            if b.name == "-inf":
                return {"Gt": T_.T, "Ge": T_.T, "Ne": T_.T}.get(op, T_.F)
            return T_.T if op == "Ne" else T_.F
        if isinstance(a, Opq) and a.kind == "float" and isinstance(b, P):
            sw = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le", "Eq": "Eq", "Ne": "Ne"}
            return self.cmp_special(sw[op], b, a)
        raise Unsupported("comparison of special floats")

    def f32(self, st, v):
        """rounding to single precision: exact for integers up to 2^24"""
        c = v.const()
        if c is not None:
            return K(Fr(struct.unpack("f", struct.pack("f", float(c)))[0]))
        if is_int(v) and entails(st.pc, conj(le(-2 ** 24, v), le(v, 2 ** 24))):
            return v
        return app("f32", v, sort="I" if is_int(v) else "R")

    def trunc(self, st, v):
        if not self.blind:
            return app("trunc", v, sort="I")
        k = ("trunc", v)
        if k not in self.seen:
            self.seen[k] = A(fresh("float_cast", "I"))
        return self.seen[k]

    def cast(self, st, r, v, line):
        k = r["cast"]
        if k.startswith("PointerCoercion") or k in ("BoxDerefTransmute", "PtrToPtr", "FnPtrToPtr") or k.startswith("Transmute"):
            if k.startswith("Transmute"):
                if self.types[r["from"]]["k"] == "ptr" and self.tys(r["ty"]) == "usize":
                    return Opq("address", "")       # only for the checks that debug assertions add
                raise Unsupported("transmute")
            return v
        if k == "IntToFloat":
            if isinstance(v, C):
                return mk_ite(v, ONE, ZERO)
            if self.tys(r["ty"]) == "f32":
                return self.f32(st, v)
            if self.tys(r["ty"]) != "f64":
                raise Unsupported("conversion to %s" % self.tys(r["ty"]))
            return v
        if k == "IntToInt":
            if isinstance(v, C):
                return mk_ite(v, ONE, ZERO)
            if not isinstance(v, P):
                raise Unsupported("cast")
            rng = INT_RANGE.get(self.tys(r["ty"]))
            frm = INT_RANGE.get(self.tys(r["from"]))
            if rng is None:
                raise Unsupported("cast to %s" % self.tys(r["ty"]))
            if frm and frm[0] >= rng[0] and frm[1] <= rng[1]:
                return v
            c = conj(le(rng[0], v), le(v, rng[1]))
            if entails(st.pc, c):
                return v
            out = app(("wrap", self.tys(r["ty"])), v, sort="I")
            return mk_ite(c, v, out)
        if k == "FloatToInt":
            if isinstance(v, P):
                rng = INT_RANGE[self.tys(r["ty"])]
                w = v if is_int(v) else self.trunc(st, v)
                c = conj(le(rng[0], w), le(w, rng[1]))
                if entails(st.pc, c):
                    return w
                return mk_ite(lt(w, rng[0]), K(rng[0]), mk_ite(lt(rng[1], w), K(rng[1]), w))
        if k == "FloatToFloat" and isinstance(v, P):
            return self.f32(st, v) if self.tys(r["ty"]) == "f32" else v
        raise Unsupported("cast %s" % k)

    # ------------------------------------------------------------ function bodies
    def body_meta(self, b):
        m = self.meta.get(b["id"])
        if m is None:
            m = analyse(b["body"])
            self.meta[b["id"]] = m
        return m

    def run_body(self, st, b, args, keep=False):
        if not b.get("body"):
            raise Unsupported("no body for %s" % b["path"])
        if self.depth > 60:
            raise Unsupported("recursion")
        self.executed.add(b["path"])
        F = Frame()
        F.body = b
        self.nframe += 1
        F.id = ("fr", self.nframe)
        st = st.fork()
        B = b["body"]
        for i in range(len(B["locals"])):
            st.cells[(F.id, i)] = UNDEF
        if len(args) != B["argc"]:
            raise Unsupported("argument count of %s" % b["path"])
        for i, a in enumerate(args):
            st.cells[(F.id, i + 1)] = a
        self.fn_stack.append(b)
        self.depth += 1
        try:
            res = self.region(st, F, 0, None, None)
        finally:
            self.fn_stack.pop()
            self.depth -= 1
        out = []
        for kind, bb, s in res:
            v = s.cells[(F.id, 0)]
            if not keep:
                for i in range(len(B["locals"])):
                    s.cells.pop((F.id, i), None)
            out.append((s, v))
        return out

    def region(self, st, F, bb0, within, header):
        """execute from bb0; stop on return, on reaching header again, or on leaving within"""
        loops, live = self.body_meta(F.body)
        out = []
        work = [(bb0, st, True)]
        blocks = F.body["body"]["blocks"]
        while work:
            bb, st, first = work.pop()
            if not first:
                if bb == header:
                    out.append(("back", bb, st))
                    continue
                if within is not None and bb not in within:
                    out.append(("exit", bb, st))
                    continue
            if bb in loops and not (first and bb == header):
                for kind, b2, s2 in self.loop(st, F, bb, loops[bb]):
                    if kind == "ret":
                        out.append((kind, b2, s2))
                    else:
                        work.append((b2, s2, False))
                continue
            self.steps += 1
            if self.steps > self.max_steps:
                raise Unsupported("step budget")
            bl = blocks[bb]
            for s in bl["s"]:
                if "p" in s:
                    v = self.box_alias(st, F, s)
                    if v is None:
                        v = self.rvalue(st, F, s["r"], s.get("l"))
                    r = self.place(st, F, s["p"])
                    if isinstance(r, tuple):
                        raise Unsupported("write to a box pointer")
                    self.write(st, r, v)
                elif "dead" in s or "live" in s or not s:
                    pass
                elif "setdiscr" in s:
                    raise Unsupported("set discriminant")
            t = bl["t"]
            for nb, s2 in self.terminator(st, F, t):
                if nb == "ret":
                    out.append(("ret", None, s2))
                else:
                    work.append((nb, s2, False))
        return out

    def terminator(self, st, F, t):
        line = t.get("l")
        if "goto" in t:
            return [(t["goto"], st)]
        if "ret" in t:
            return [("ret", st)]
        if "switch" in t:
            v = self.operand(st, F, t["switch"])
            out = []
            if isinstance(v, C):
                tg = {int(a): b for a, b in t["t"]}
                for truth, s in self.split(st, v):
                    out.append((tg.get(int(truth), t["else"]), s))
                return out
            if not isinstance(v, P):
                raise Unsupported("switch on %s" % type(v).__name__)
            c = v.const()
            if c is not None:
                for a, b in t["t"]:
                    if int(a) == c:
                        return [(b, st)]
                return [(t["else"], st)]
            cur = st
            for a, b in t["t"]:
                nxt = None
                for truth, s in self.split(cur, eq(v, int(a))):
                    if truth:
                        out.append((b, s))
                    else:
                        nxt = s
                if nxt is None:
                    return out
                cur = nxt
            out.append((t["else"], cur))
            return out
        if "assert" in t and str(t.get("msg", "")).startswith(("MisalignedPointer", "NullPointer")):
            self.notes.add("references and boxes are aligned and not null (the crate forbids unsafe code)")
            return [(t["to"], st)]
        if "assert" in t:
            v = self.operand(st, F, t["assert"])
            c = v if t["exp"] else neg(v)
            self.oblige(st, c, assert_kind(t.get("msg", "")), "no panic: %s" % short_msg(t.get("msg", "")), line)
            if c.op == "false":
                return []
            if not has_eq(c) and entails(st.pc, c):
                return [(t["to"], st)]
            s = st.fork(c)
            self.assert_facts.update(x for x in s.pc if x not in st.pc)
            if not feasible(s.pc):
                return []
            return [(t["to"], s)]
        if "call" in t:
            return self.do_call(st, F, t)
        if "unreachable" in t:
            if feasible(st.pc):
                self.oblige(st, T_.F, "unreachable", "unreachable code is not reached", line)
            return []
        if "drop" in t:
            return [(t["to"], st)]
        if "resume" in t:
            return []
        raise Unsupported("terminator %s" % json.dumps(t)[:80])

    def do_call(self, st, F, t):
        call = t["call"]
        args = [self.operand(st, F, a) for a in t["a"]]
        k = call.get("k") if isinstance(call, dict) else None
        ctx = {"aty": t.get("aty", []), "dty": t.get("dty"), "line": t.get("l"), "F": F}
        if k is not None and "fn" in k:
            res = self.call_fn(st, k["fn"], args, ctx)
        else:
            f = self.operand(st, F, call)
            res = self.call_value(st, f, args, ctx)
        out = []
        for s, v in res:
            if t.get("to") is None:
                if feasible(s.pc):
                    self.oblige(s, T_.F, "panic", "no reachable panic (diverging call)", t.get("l"))
                continue
            r = self.place(s, F, t["d"])
            self.write(s, r, v)
            out.append((t["to"], s))
        return out

    # ------------------------------------------------------------ calls
    def call_fn(self, st, fn, args, ctx):
        path = fn.get("path")
        if fn.get("ctor"):
            return [(st, Agg(fn["ctor"] if isinstance(fn["ctor"], str) else path, args, fn.get("variant") or 0))]
        tgt = None
        res = fn.get("res")
        if res and res.get("local"):
            tgt = self.by_id.get(res["id"])
        elif fn.get("local") and not fn.get("trait"):
            tgt = self.by_id.get(fn["id"])
        elif fn.get("local") and not res:
            tgt = self.by_id.get(fn["id"])
        if tgt is not None:
            h = self.contracts.get(tgt["path"])
            if h is not None:
                self.used_contracts.add(tgt["path"])
                return h(self, st, args, ctx)
            if tgt.get("derived"):
                r = self.std.derived(self, st, tgt, args, ctx)
                if r is not None:
                    return r
            self.inlined.add(tgt["path"])
            if tgt.get("kind") == "Closure" and len(args) == 2 and isinstance(args[1], Agg) and args[1].tag == "tuple":
                return self.call_value(st, args[0], list(args[1].f), ctx)    # "rust-call": the arguments come as a tuple
            return self.run_body(st, tgt, args)
        return self.std.call(self, st, fn, args, ctx)

    def call_value(self, st, f, args, ctx=None):
        """call a closure, function item or the opaque integrand; args is the untupled list"""
        ctx = ctx or {}
        ref = None
        while isinstance(f, Ref):
            ref = f
            f = self.read(st, f)
        if isinstance(f, FnV):
            return self.call_fn(st, f.fn, args, dict(ctx, viaval=True))
        if isinstance(f, Opq):
            if f.kind == "fn":
                return self.call_opaque(st, f, args)
            raise Unsupported("call of %r" % (f,))
        if isinstance(f, Agg) and f.tag == "py:record":
            # an observer of a fold: appends every item it is given
            x = args[-1]
            while isinstance(x, Ref):
                x = self.read(st, x)
            if f.f:
                st = st.fork()
                self.write(st, f.f[0], self.read(st, f.f[0]).push(x))
                return [(st, UNIT)]
            return [(st, args[0].push(x))]
        if isinstance(f, Agg) and f.tag.startswith("closure:"):
            b = self.by_id.get(f.tag[8:])
            if b is None:
                raise Unsupported("closure %s" % f.tag)
            B = b["body"]
            t1 = self.types[B["locals"][1]]
            if t1["k"] in ("ref", "ptr"):
                if ref is None:
                    ref = self.alloc(st, f)
                a0 = ref
            else:
                a0 = f
            return self.run_body(st, b, [a0] + list(args))
        raise Unsupported("call of %s" % type(f).__name__)

    def call_opaque(self, st, f, args):
        """the user's integrand: an arbitrary function; a ghost cell records the multiset of calls"""
        x = args[0]
        if not isinstance(x, P):
            raise Unsupported("integrand argument")
        st = st.fork()
        g = ("ghost", f.name)
        if g in st.cells:
            st.cells[g] = st.cells[g] + app("calls_" + f.name, x)
        return [(st, app(f.name, x))]

    # ------------------------------------------------------------ loops
    def loop(self, st, F, h, body):
        live = self.body_meta(F.body)[1][h]
        st = st.fork()
        for i in range(len(F.body["body"]["locals"])):
            if i not in live:
                st.cells[(F.id, i)] = UNDEF
        mark = len(self.obs)
        cur = st.fork()
        try:
            for _ in range(self.MAX_UNROLL):
                res = self.region(cur, F, h, body, h)
                if len(res) != 1:
                    break
                kind, bb, s = res[0]
                if kind != "back":
                    return res
                cur = s
                for i in range(len(F.body["body"]["locals"])):
                    if i not in live:
                        cur.cells[(F.id, i)] = UNDEF
                if len(cur.pc) > len(st.pc) + 3:
                    break
        except Unsupported:
            pass
        del self.obs[mark:]

        def iterate(s):
            out = []
            for kind, bb, s2 in self.region(s.fork(), F, h, body, h):
                if kind == "back":
                    for i in range(len(F.body["body"]["locals"])):
                        if i not in live:
                            s2.cells[(F.id, i)] = UNDEF
                out.append((kind, bb, s2))
            return out

        return self.summarise(st, iterate)

    def summarise(self, st0, iterate):
        """replace a loop by an inductively verified closed form; returns the exit states"""
        self.quiet += 1
        try:
            S, N, k, base = self.infer(st0, iterate)
        finally:
            self.quiet -= 1
        # obligations inside the loop, for every iteration
        if S is not None:
            body_st = S(A(k)).fork(le(0, A(k)), lt(A(k), N))
            if feasible(body_st.pc):
                iterate(body_st)
        out = []
        if base is not None:            # the case where the loop is never entered with a positive trip count
            for r in iterate(base):
                if r[0] == "back":
                    raise Unsupported("loop exit")
                out.append(r)
        if S is not None:
            fin = S(N)
            if feasible(fin.pc):
                for r in iterate(fin):
                    if r[0] == "back":
                        raise Unsupported("loop exit")
                    out.append(r)
        return out

    def infer(self, st0, iterate):
        slots = {}       # (cell, leafpath) -> dict(var, sort, init)
        sid = [0]

        def generic():
            g = st0.fork()
            for (c, lp), sl in slots.items():
                g.cells[c] = leaf_set(g.cells[c], lp, sl["var"])
            return g

        for rnd in range(12):
            g = generic()
            res = iterate(g)
            backs = [s for kind, _, s in res if kind == "back"]
            new = False
            for s in backs:
                for c, v0 in g.cells.items():
                    v1 = s.cells.get(c, UNDEF)
                    if v1 is v0:
                        continue
                    if not shape_eq(v0, v1):
                        raise Unsupported("loop changes the shape of a live value %r: %r vs %r" % (c, v0, v1))
                    for lp, l0 in leaves(v0):
                        l1 = leaf_get(v1, lp)
                        if l1 is l0 or l1 == l0:
                            continue
                        key = (c, lp)
                        if key in slots:
                            sl = slots[key]
                            if isinstance(l1, P) and sl["sort"] == "I" and not is_int(l1):
                                sl["sort"] = "R"
                                sl["var"] = A(fresh("u", "R"))
                                new = True
                            if isinstance(l1, Arr) and l1.base == l0.base and l1.dims != l0.dims and not sl.get("len"):
                                sl["len"] = A(fresh("len", "I"))
                                sl["var"] = Arr((sl["len"],) + l0.dims[1:], l0.base)
                                new = True
                            continue
                        init = leaf_get(st0.cells[c], lp)
                        if isinstance(init, P):
                            srt = "I" if is_int(init) and is_int(l1) else "R"
                            slots[key] = {"var": A(fresh("u", srt)), "sort": srt, "init": init}
                        elif isinstance(init, C):
                            slots[key] = {"var": bvar(str(fresh("b", "I").name)), "sort": "B", "init": init}
                        else:
                            sid[0] += 1
                            tmpl = array_template(init, l1)
                            slots[key] = {"var": Arr(init.dims, ("slot", (id(st0), sid[0]), tmpl)), "sort": "A",
                                          "init": init, "len": None}
                        new = True
            if not new:
                break
        else:
            raise Unsupported("loop does not stabilise")
        if not slots:
            if any(kind == "back" for kind, _, _ in res):
                raise Unsupported("loop without progress")
            return None, None, None, st0
        # merged effect of one iteration
        backs = [s for kind, _, s in res if kind == "back"]
        if not backs:
            return None, None, None, st0
        g = generic()
        eff = {}
        common = set(backs[0].pc)
        for s in backs[1:]:
            common &= set(s.pc)
        conds = [conj(*[x for x in s.pc if x not in common and x not in self.assert_facts]) for s in backs]
        for key, sl in slots.items():
            c, lp = key
            cur = None
            for s, cond in zip(backs, conds):
                v = leaf_get(s.cells[c], lp)
                if cur is None:
                    cur = v
                else:
                    cur = merge_ops(cond, v, cur)
            eff[key] = cur
        k = fresh("it", "I")
        kv = A(k)
        closed = {}      # var id -> P in k
        arr_closed = {}
        pending = dict(slots)
        progress = True
        while pending and progress:
            progress = False
            unresolved = set()
            for key, sl in pending.items():
                if isinstance(sl["var"], P):
                    unresolved |= sl["var"].fv
                elif isinstance(sl["var"], Arr) and sl.get("len") is not None:
                    unresolved |= sl["len"].fv
            for key, sl in list(pending.items()):
                u = sl["var"]
                e = eff[key]
                if isinstance(u, P):
                    cl = self.close_num(u, sl["init"], e, closed, unresolved, k, arr_closed, pending)
                    if cl is None:
                        continue
                    closed[next(iter(u.fv))] = cl
                    del pending[key]
                    progress = True
                    break
                if isinstance(u, C):
                    if isinstance(e, C) and not (e.fv & unresolved) and not mentions_bvar(e):
                        e2 = subst(e, closed)
                        sl["closedC"] = (e2, sl["init"])
                        del pending[key]
                        progress = True
                        break
                    continue
                if isinstance(u, Arr):
                    cl = self.close_arr(sl, e, closed, unresolved, k, pending, slots, key)
                    if cl is None:
                        continue
                    arr_closed[key] = cl
                    if sl.get("len") is not None:
                        closed[next(iter(sl["len"].fv))] = cl(kv).dims[0]
                    del pending[key]
                    progress = True
                    break
        if pending:
            raise Unsupported("loop effect has no closed form: %s" % ", ".join(
                "%r: %s" % (k_[0], repr(eff[k_])[:120]) for k_ in list(pending)[:2]))

        def at(n):
            s = st0.fork()
            for key, sl in slots.items():
                c, lp = key
                u = sl["var"]
                if isinstance(u, P):
                    x = subst(closed[next(iter(u.fv))], {k.id: n})
                    x = simp_q(x)
                elif isinstance(u, C):
                    e2, init = sl["closedC"]
                    prev = subst(e2, {k.id: n - 1})
                    z = eq(n, 0)
                    x = disj(conj(z, init), conj(neg(z), prev))
                else:
                    x = arr_closed[key](n)
                s.cells[c] = leaf_set(s.cells[c], lp, x)
            return s

        # trip count
        S = at
        probe = S(kv).fork(le(0, kv))
        res = iterate(probe)
        if not any(r[0] == "back" for r in res):
            return None, None, None, st0
        exits = [r for r in res if r[0] != "back"]
        if not exits:
            raise Unsupported("loop without exit")
        cands = []
        for kind, _, s in exits:
            for c in s.pc:
                if c in probe.pc:
                    continue
                for q in c.a if c.op in ("=", "<", "<=") else ():
                    sol = solve_linear(q, k.id)
                    if sol is not None and k.id not in sol.fv:
                        co = lin_coef(q, k.id)
                        if not is_int(sol):
                            cc = co.const()
                            if cc is not None and is_int(sol * cc):
                                x = sol * abs(cc)
                                sol = mk_idiv(x + (abs(cc) - 1), K(abs(cc)))
                                cands.append(sol)
                                cands.append(mk_idiv(x, K(abs(cc))) + 1)
                            continue
                        cands += [sol, sol + 1]
                if c.op == "not" and c.a[0].op == "=":
                    sol = solve_linear(c.a[0].a[0], k.id)
                    if sol is not None and is_int(sol):
                        cands += [sol]
        N = None
        for cand in cands:
            inside = (le(0, kv), lt(kv, cand))
            okk = True
            for kind, _, s in exits:
                if check(list(s.pc) + list(inside)) != "unsat":
                    okk = False
                    break
            if not okk:
                continue
            for kind, _, s in res:
                if kind == "back" and check(list(s.pc) + [eq(kv, cand), le(0, cand)]) != "unsat":
                    okk = False
                    break
            if okk:
                N = cand
                break
        if N is None:
            raise Unsupported("trip count not found (candidates %s)" % ", ".join(show(c) for c in cands)[:200])
        base = None
        if not entails(st0.pc, le(0, N)):
            nb = st0.fork(lt(N, 0))
            if feasible(nb.pc):
                base = nb
        S0 = st0.fork(le(0, N))

        def S(n, S0=S0):
            s = at(n)
            s.pc = S0.pc
            return s

        # base and inductive step
        s0 = S(ZERO)
        for (c, lp), sl in slots.items():
            self.same(sl["init"], leaf_get(s0.cells[c], lp), S0.pc, "loop base case")
        gs = S(kv).fork(le(0, kv), lt(kv, N))
        nxt = S(kv + 1)
        for kind, _, s in iterate(gs):
            if kind != "back":
                continue
            if not feasible(s.pc):
                continue
            for c, v0 in gs.cells.items():
                v1 = s.cells.get(c, UNDEF)
                if v1 is v0:
                    continue
                want = nxt.cells[c]
                if not shape_eq(v1, want):
                    raise Unsupported("loop invariant shape")
                for lp, l1 in leaves(v1):
                    l2 = leaf_get(want, lp)
                    if l1 is not l2:
                        self.same(l1, l2, s.pc, "loop invariant")
        self.loops_proved = getattr(self, "loops_proved", 0) + 1
        return S, N, k, base

    def same(self, a, b, pc, what):
        if isinstance(a, P) and isinstance(b, P):
            if a == b:
                return
            if prove_zero(a - b, list(pc)) is None:
                raise Unsupported("%s: %s vs %s" % (what, show(a)[:150], show(b)[:150]))
            return
        if isinstance(a, C) and isinstance(b, C):
            if a == b:
                return
            if not (entails(list(pc) + [a], b) and entails(list(pc) + [b], a)):
                raise Unsupported(what)
            return
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a == b:
                return
            for x, y in zip(a.dims, b.dims):
                self.same(x, y, pc, what)
            ix = [A(fresh("j", "I")) for _ in a.dims]
            pc2 = list(pc)
            for i, n in zip(ix, a.dims):
                pc2 += [le(0, i), lt(i, n)]
            if not feasible(pc2):
                return
            va, vb = a.get(*ix), b.get(*ix)
            if not shape_eq(va, vb):
                raise Unsupported(what)
            for lp, l1 in leaves(va):
                self.same(l1, leaf_get(vb, lp), pc2, what)
            return
        if a != b:
            raise Unsupported(what)

    def close_num(self, u, init, e, closed, unresolved, k, arr_closed, pending):
        uid = next(iter(u.fv))
        kv = A(k)
        e = self.resolve_slot_reads(e, arr_closed, pending, k)
        if e is None:
            return None
        d = e - u
        others = unresolved - {uid}
        if uid not in d.fv and not (d.fv & others):
            dk = subst(d, closed)
            j = fresh("j", "I")
            return init + mk_sum(kv, subst(dk, {k.id: A(j)}), j)
        if not (e.fv & unresolved):
            ek = subst(e, closed)
            prev = subst(ek, {k.id: kv - 1})
            if subst(prev, {k.id: ZERO}) == init:
                return prev
            return mk_ite(eq(kv, 0), init, prev)
        # u' = c*u + d, c constant
        c = lin_coef(e, uid)
        if c is not None and c.const() is not None and c.const() != 1:
            d = e - c * u
            if not (d.fv & unresolved) and d.const() == 0:
                return init * mk_pow(c, kv)
        # conditional accumulation: ite(c, u + a, u)
        acc = {}
        find_ite(e, acc)
        if acc:
            ksub = None
            for a, kk in acc.items():
                c = kk.args[0]
                if not (c.fv & unresolved):
                    x = self.close_num2(e, kk, u, uid, unresolved)
                    if x is not None and not (x.fv & unresolved):
                        dk = subst(x, closed)
                        j = fresh("j", "I")
                        return init + mk_sum(kv, subst(dk, {k.id: A(j)}), j)
                elif not ((c.fv - {uid}) & unresolved):
                    x = self.close_saturating(init, e, kk, u, uid, kv)
                    if x is not None and not (x.fv & unresolved):
                        return subst(x, closed)
        return None

    def close_saturating(self, init, e, kk, u, uid, kv):
        """u' = u +- 1 while below/above a fixed bound, u otherwise (a candidate: infer proves base and step)"""
        c = kk.args[0]
        a = (repl(e, {kk.id: kk.args[1]}) - u).const()
        b = (repl(e, {kk.id: kk.args[2]}) - u).const()
        if a == 0 and b is not None:
            a, b, c = b, a, neg(c)
        if b != 0 or a not in (1, -1) or c.op not in ("<", "<="):
            return None
        co, lim = lin_coef(c.a[0], uid), solve_linear(c.a[0], uid)
        if co is None or co.const() is None or lim is None or uid in lim.fv or not is_int(lim):
            return None
        if (co.const() > 0) != (a > 0):
            return None
        if c.op == "<=":
            lim = lim + a                    # moves while u <= lim: stops at lim + 1
        far = init + kv * a
        if a > 0:
            stop = mk_ite(lt(init, lim), lim, init)
            return mk_ite(le(far, stop), far, stop)
        stop = mk_ite(lt(lim, init), lim, init)
        return mk_ite(le(stop, far), far, stop)

    def close_num2(self, e, kk, u, uid, unresolved):
        a = repl(e, {kk.id: kk.args[1]}) - u
        b = repl(e, {kk.id: kk.args[2]}) - u
        if uid in a.fv or uid in b.fv:
            for x in (a, b):
                acc = {}
                find_ite(x, acc)
            return None
        return mk_ite(kk.args[0], a, b)

    def resolve_slot_reads(self, e, arr_closed, pending, k):
        """reads of array slots already closed are replaced by the closed element"""
        ats = [a for a in all_atoms(e).values() if a.kind == "app" and isinstance(a.name, tuple) and a.name and a.name[0] == ("slotel",)]
        return e

    def close_arr(self, sl, e, closed, unresolved, k, pending, slots, key):
        kv = A(k)
        base = sl["var"].base
        if not isinstance(e, Arr) or e.base != base:
            return None
        myid = base[1]
        dims0 = sl["init"].dims
        growth = ZERO
        if sl.get("len") is not None:
            growth = e.dims[0] - sl["len"]
            if growth.const() is None:
                return None
        lenv = next(iter(sl["len"].fv)) if sl.get("len") is not None else None
        sub = dict(closed)
        if lenv is not None:
            sub[lenv] = dims0[0] + growth * kv
        init = sl["init"]
        own = set(unresolved)
        if lenv is not None:
            own.discard(lenv)
        ops = []
        for vs, cond, path, val in e.ops:
            if cond.fv & own:
                return None
            vfv = set()
            for _, l in leaves(val):
                if isinstance(l, (P, C)):
                    vfv |= l.fv
                else:
                    return None
            if vfv & own:
                return None
            cond = subst(cond, sub)
            val = vsubst(val, sub)
            ix = [A(a) for a in vs]
            # find an equality that determines the iteration writing index ix
            cs = list(cond.a) if cond.op == "and" else [cond]
            tsol = None
            for c in cs:
                if c.op == "=" and k.id in c.fv:
                    s = solve_linear(c.a[0], k.id)
                    if s is not None and is_int(s) and k.id not in s.fv:
                        tsol = s
                        rest = [x for x in cs if x is not c]
                        break
            if tsol is None:
                if k.id in cond.fv or any(isinstance(l, (P, C)) and k.id in l.fv for _, l in leaves(val)):
                    # written in every iteration: the last one wins (same cells each time)
                    if k.id in cond.fv:
                        return None
                    ops.append((vs, "last", cond, path, val, None))
                else:
                    ops.append((vs, "const", cond, path, val, None))
                continue
            cond2 = subst(conj(*rest), {k.id: tsol})
            val2 = vsubst(val, {k.id: tsol})
            ops.append((vs, "at", cond2, path, val2, tsol))
        # own reads inside values: only of the element being written, before any other write to it
        fixed = []
        for vs, kind, cond, path, val, t in ops:
            bad = [False]

            def f(a, vs=vs, cond=cond, t=t):
                if a.kind == "app" and isinstance(a.name, tuple) and len(a.name) == 2 and a.name[0] == "slot":
                    sidx, pth = a.name[1]
                    if sidx != myid:
                        other = [kk for kk, s2 in slots.items() if isinstance(s2["var"], Arr) and s2["var"].base[1] == sidx]
                        bad[0] = True
                        return None
                    ok_ = True
                    for x, vv in zip(a.args, vs):
                        dlt = x - A(vv)
                        if not dlt.is_zero() and not entails([cond], eq0(dlt)):
                            ok_ = False
                    if not ok_:
                        bad[0] = True
                        return None
                    el = init.get(*[A(v) for v in vs])
                    for q in pth:
                        el = el.f[q]
                    return el
                return None
            val = vmap(val, lambda l: map_atoms(l, f))
            if bad[0]:
                return None
            fixed.append((vs, kind, cond, path, val, t))
        # order by time of the write when comparable
        def norm(op):
            vs, kind, cond, path, val, t = op
            return op
        order = list(fixed)
        for i in range(len(order)):
            for j in range(len(order) - 1):
                a, b = order[j], order[j + 1]
                if a[1] == "at" and b[1] == "at" and len(a[0]) == len(b[0]):
                    tb = subst(b[5], {y.id: A(x) for x, y in zip(a[0], b[0])})
                    diff = (a[5] - tb).const()
                    if diff is not None and diff > 0:
                        order[j], order[j + 1] = b, a

        def build(n):
            dims = dims0
            if lenv is not None:
                dims = (dims0[0] + growth * n,) + tuple(dims0[1:])
            newops = []
            for vs, kind, cond, path, val, t in order:
                if kind == "at":
                    c = conj(le(0, t), lt(t, n), cond)
                    newops.append((vs, c, path, val))
                elif kind == "const":
                    newops.append((vs, conj(le(1, n), cond), path, val))
                else:
                    newops.append((vs, conj(le(1, n), cond), path, vsubst(val, {k.id: n - 1})))
            newops = [(vs, c, p, v) for vs, c, p, v in newops if c.op != "false"]
            out = Arr(dims, init.base, tuple(init.ops) + tuple(newops), init.name)
            return self.flatten(out)
        return build

    def flatten(self, a):
        """collapse a fully overwritten array into a comprehension"""
        if len(a.dims) == 1 and a.base == ("lst", ()) and len(a.ops) == 1 and a.ops[0][2] == ():
            vs, c, path, val = a.ops[0]
            # the domain condition equals 0 <= i < len
            want = conj(le(0, A(vs[0])), lt(A(vs[0]), a.dims[0]))
            cs = set(c.a) if c.op == "and" else {c}
            ws = set(want.a) if want.op == "and" else {want}
            if cs <= ws:
                return comp(a.dims, vs, val)
        if len(a.dims) == 1 and a.base == ("lst", ()) and 1 < len(a.ops) <= 8 and all(o[2] == () for o in a.ops):
            # branches wrote different values: together they cover 0 <= i < len
            j = fresh_ix(0)
            ops = []
            for vs, c, _, val in a.ops:
                s = {vs[0].id: A(j)}
                ops.append((subst(c, s), vsubst(val, s)))
            dom = [le(0, A(j)), lt(A(j), a.dims[0])]
            if check(dom + [neg(c) for c, _ in ops]) == "unsat":
                v = ops[0][1]
                for c, w in ops[1:]:
                    # only what the domain does not say anyway
                    c = conj(*[x for x in (c.a if c.op == "and" else (c,)) if not entails(dom, x)])
                    v = vite(c, w, v)
                return comp(a.dims, (j,), v)
        return a


def has_eq(c):
    """the fact can serve as a rewrite"""
    return c.op == "=" or (c.op == "and" and any(x.op == "=" for x in c.a))


def is_var(p):
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "var"
    return False


def is_z(p):
    try:
        return clear_eq(p).is_zero()
    except Exception:
        return False


def simp_q(x):
    return x


def mentions_bvar(c):
    if c.op == "bvar":
        return True
    return any(isinstance(x, C) and mentions_bvar(x) for x in c.a)


def merge_ops(cond, a, b):
    """value a where cond holds, else b; arrays over the same base merge their updates"""
    if isinstance(a, Arr) and isinstance(b, Arr) and a.base == b.base:
        if a.ops == b.ops and a.dims == b.dims:
            return a
        n = 0
        while n < len(a.ops) and n < len(b.ops) and a.ops[n] == b.ops[n]:
            n += 1
        if a.dims != b.dims:
            raise Unsupported("conditional push")
        ops = a.ops[:n] + tuple((vs, conj(cond, c), p, v) for vs, c, p, v in a.ops[n:]) + \
            tuple((vs, conj(neg(cond), c), p, v) for vs, c, p, v in b.ops[n:])
        return Arr(a.dims, a.base, ops, a.name)
    return vite(cond, a, b)


def array_template(init, l1):
    """an element shape for a generic array"""
    if init.base[0] == "lst" and init.base[1]:
        return init.base[1][0]
    if init.base[0] == "comp":
        return init.base[2]
    if init.base[0] == "slot":
        return init.base[2]
    for vs, c, p, v in tuple(init.ops) + tuple(l1.ops):
        if p == ():
            return v
    if l1.base[0] == "lst" and l1.base[1]:
        return l1.base[1][0]
    raise Unsupported("array element shape unknown")


def assert_kind(m):
    if m.startswith("BoundsCheck"):
        return "bounds"
    if m.startswith("Overflow"):
        return "overflow"
    if "Zero" in m:
        return "division"
    return "assert"


def short_msg(m):
    return m.split("{")[0][:80] if m else "assertion"


# ---------------------------------------------------------------- CFG analysis
def succs(t):
    if "goto" in t:
        return [t["goto"]]
    if "switch" in t:
        return [b for _, b in t["t"]] + ([t["else"]] if t.get("else") is not None else [])
    if "to" in t and t["to"] is not None:
        return [t["to"]]
    return []


def analyse(B):
    """natural loops {header: set(blocks)} and live locals at each loop header"""
    bl = B["blocks"]
    n = len(bl)
    order, seen = [], set()
    stack = [(0, iter(succs(bl[0]["t"])))]
    seen.add(0)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(succs(bl[s]["t"]))))
                break
        else:
            order.append(b)
            stack.pop()
    order.reverse()
    preds = {b: [] for b in order}
    for b in order:
        for s in succs(bl[b]["t"]):
            preds[s].append(b)
    dom = {b: set(order) for b in order}
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for b in order:
            if b == 0:
                continue
            ps = [dom[p] for p in preds[b]]
            d = set.intersection(*ps) if ps else set()
            d = d | {b}
            if d != dom[b]:
                dom[b] = d
                ch = True
    loops = {}
    for b in order:
        for s in succs(bl[b]["t"]):
            if s in dom[b]:
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st.extend(preds[x])
    live = {}
    if loops:
        use, dfn, addr = {}, {}, set()
        for b in order:
            u, d = set(), set()

            def rd(x):
                if x not in d:
                    u.add(x)

            def walk_place(p, write=False):
                for e in p[1]:
                    if isinstance(e, dict) and "i" in e:
                        rd(e["i"])
                if write and not p[1]:
                    d.add(p[0])
                else:
                    rd(p[0])

            def walk_op(o):
                if "c" in o:
                    walk_place(o["c"])
                elif "m" in o:
                    walk_place(o["m"])

            def walk_r(r):
                for key in ("use", "a", "b", "repeat"):
                    if key in r and isinstance(r[key], dict):
                        walk_op(r[key])
                if "o" in r:
                    if isinstance(r["o"], list):
                        for o in r["o"]:
                            walk_op(o)
                    else:
                        walk_op(r["o"])
                if "ref" in r or "raw" in r:
                    p = r.get("ref") or r.get("raw")
                    walk_place(p)
                    if "*" not in p[1]:
                        addr.add(p[0])
                if "discr" in r:
                    walk_place(r["discr"])
            for s in bl[b]["s"]:
                if "p" in s:
                    walk_r(s["r"])
                    walk_place(s["p"], True)
            t = bl[b]["t"]
            if "switch" in t:
                walk_op(t["switch"])
            if "assert" in t:
                walk_op(t["assert"])
            if "call" in t:
                if "k" not in t["call"]:
                    walk_op(t["call"])
                for o in t["a"]:
                    walk_op(o)
                walk_place(t["d"], True)
            use[b], dfn[b] = u, d
            if "ret" in t:
                use[b] = u | ({0} - d)
        li = {b: set() for b in order}
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                o = set()
                for s in succs(bl[b]["t"]):
                    o |= li[s]
                x = use[b] | (o - dfn[b])
                if x != li[b]:
                    li[b] = x
                    ch = True
        # an address-taken local stays live only if its address may still be held:
        # keep it when it is live, or when a live local can hold a reference
        for h in loops:
            keep = set(li[h])
            keep |= held(B, order, addr, loops[h], li[h])
            live[h] = keep
    return loops, live


def held(B, order, addr, body, liveset):
    """address-taken locals whose address may be reachable from a live local at the header"""
    bl = B["blocks"]
    flow = {}
    for b in order:
        for s in bl[b]["s"]:
            if "p" not in s:
                continue
            src = set()
            r = s["r"]

            def op(o):
                if isinstance(o, dict):
                    if "c" in o:
                        src.add(o["c"][0])
                    elif "m" in o:
                        src.add(o["m"][0])
            for key in ("use", "a", "b", "repeat"):
                if key in r:
                    op(r[key])
            if "o" in r:
                for o in (r["o"] if isinstance(r["o"], list) else [r["o"]]):
                    op(o)
            if "ref" in r or "raw" in r:
                src.add((r.get("ref") or r.get("raw"))[0])
            flow.setdefault(s["p"][0], set()).update(src)
        t = bl[b]["t"]
        if "call" in t:
            src = set()
            for o in t["a"]:
                if "c" in o:
                    src.add(o["c"][0])
                elif "m" in o:
                    src.add(o["m"][0])
            flow.setdefault(t["d"][0], set()).update(src)
    reach = set(liveset)
    st = list(liveset)
    while st:
        x = st.pop()
        for y in flow.get(x, ()):
            if y not in reach:
                reach.add(y)
                st.append(y)
    return {a for a in addr if a in reach}
