"""Bit-precise symbolic execution of loop-free MIR: f64 values are IEEE 754 terms of z3's floating
point theory (all 2^64 bit patterns), enums and aggregates are concrete, unknown values of other
types are tokens.  Used for the parameter type (C01) and for the serde implementations (C13)."""
import struct
import z3
from val import Agg, Ref, FnV, Opq, UNDEF, Unsupported
from std import norm

F64 = z3.Float64()
RNE = z3.RNE()
MINUS1 = z3.FPVal(-1.0, F64)
POW = z3.Function("pow", F64, F64, F64)
OPT = "core::option::Option"
RES = "core::result::Result"
CF = "core::ops::control_flow::ControlFlow"
UNIT = Agg("tuple", ())


def fv(name):
    return z3.FP(name, F64)


def const_f(x):
    b = struct.unpack(">Q", struct.pack(">d", x))[0]
    return z3.fpBVToFP(z3.BitVecVal(b, 64), F64)


def fin(x):
    return z3.Not(z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x)))


def valid(x):
    return z3.And(fin(x), z3.fpGT(x, MINUS1))


def same_bits(a, b):
    """equality of f64 values up to the payload of a NaN"""
    return a == b


def some(x):
    return Agg(OPT, (x,), 1)


NONE = Agg(OPT, (), 0)


def ok(x):
    return Agg(RES, (x,), 0)


def err(x):
    return Agg(RES, (x,), 1)


class St:
    __slots__ = ("cells", "pc", "facts")

    def __init__(self, cells, pc, facts=()):
        self.cells, self.pc, self.facts = cells, pc, facts

    def fork(self, *c):
        return St(dict(self.cells), self.pc + tuple(c), self.facts)


class FEngine:
    def __init__(self, dump):
        self.d = dump
        self.types = dump["types"]
        self.adts = dump["adts"]
        self.by_id = {b["id"]: b for b in dump["bodies"]}
        self.n = 0
        self.depth = 0
        self.solver_calls = 0
        self.inlined, self.trusted = set(), set()
        self.executed = set()
        self.konst = {}
        self.panics = []
        self.steps = 0
        self.fn_stack = []

    def fresh(self, base):
        self.n += 1
        return "%s!%d" % (base, self.n)

    def tys(self, i):
        return self.types[i].get("s", "?")

    # ------------------------------------------------------------ logic
    def sat(self, cs):
        cs = [c for c in cs if not z3.is_true(c)]
        if any(z3.is_false(c) for c in cs):
            return False
        if not cs:
            return True
        self.solver_calls += 1
        s = z3.Solver()
        s.set("timeout", 5000)
        s.add(*(abstract(cs) or cs))        # an over-approximation: more paths, never fewer
        return s.check() != z3.unsat

    def split(self, st, c):
        """[(truth, state)]"""
        if isinstance(c, bool):
            return [(c, st)]
        c = z3.simplify(c)
        if z3.is_true(c) or z3.is_false(c):
            return [(z3.is_true(c), st)]
        out = []
        for t, f in ((True, c), (False, z3.Not(c))):
            if self.sat(list(st.pc) + [f]):
                out.append((t, st.fork(f)))
        return out

    # ------------------------------------------------------------ memory
    def alloc(self, st, v):
        self.n += 1
        st.cells[("h", self.n)] = v
        return Ref(("h", self.n))

    def cell(self, st, c):
        if c[0] == "konst":
            return self.konst[c]
        if c not in st.cells:
            raise Unsupported("dead cell")
        return st.cells[c]

    def read(self, st, r):
        v = self.cell(st, r.cell)
        for e in r.path:
            if e[0] != "f" or not isinstance(v, Agg) or e[1] >= len(v.f):
                raise Unsupported("projection of %r" % (v,))
            v = v.f[e[1]]
        return v

    def write(self, st, r, val):
        def upd(v, path):
            if not path:
                return val
            if not isinstance(v, Agg):
                raise Unsupported("partial write")
            f = list(v.f)
            f[path[0][1]] = upd(f[path[0][1]], path[1:])
            return Agg(v.tag, f, v.var)
        st.cells[r.cell] = upd(st.cells.get(r.cell, UNDEF), r.path)

    def place(self, st, F, p):
        ref = Ref((F[0], p[0]))
        ty = F[1]["body"]["locals"][p[0]]
        for e in p[1]:
            t = self.types[ty] if ty is not None else {}
            if e == "*":
                if t.get("box"):
                    ty = t["args"][0]
                    continue
                v = self.read(st, ref)
                if not isinstance(v, Ref):
                    raise Unsupported("deref of %r" % (v,))
                ref, ty = v, t.get("elem")
            elif "f" in e:
                ref = ref.ext(("f", e["f"]))
                ty = e.get("ty")
            elif "v" in e:
                pass
            else:
                raise Unsupported("projection")
        return ref

    def operand(self, st, F, o):
        if "c" in o or "m" in o:
            r = self.place(st, F, o.get("c") or o.get("m"))
            v = self.read(st, r)
            if v is UNDEF:
                raise Unsupported("undefined value")
            return v
        if "k" in o:
            return self.const(st, o["k"], F)
        if "rc" in o:
            return False
        raise Unsupported("operand")

    def const(self, st, k, F=None):
        if k.get("fn") is not None:
            return FnV(k["fn"])
        if "promoted" in k:
            owner = self.by_id.get(k.get("of")) or F[1]
            pb = owner["promoted"][k["promoted"]]
            rs = self.run(st, {"id": owner["id"] + "::promoted", "path": owner["path"], "body": pb,
                               "promoted": owner.get("promoted", [])}, [], keep=True)
            if len(rs) != 1:
                raise Unsupported("promoted constant")
            s2, v = rs[0]
            st.cells.update(s2.cells)
            return v
        if k.get("v") is not None:
            return self.cval(k["v"])
        raise Unsupported("constant")

    def cval(self, v):
        if "f" in v:
            if len(v["f"]) != 16:
                raise Unsupported("f32")
            return z3.simplify(z3.fpBVToFP(z3.BitVecVal(int(v["f"], 16), 64), F64))
        if "n" in v:
            return int(v["n"])
        if "b" in v:
            return bool(v["b"])
        if "tuple" in v:
            return Agg("tuple", [self.cval(x) for x in v["tuple"]])
        if "adt" in v:
            return Agg(v["adt"], [self.cval(x) for x in v["fields"]], v.get("var", 0))
        if "ref" in v:
            c = ("konst", len(self.konst))
            self.konst[c] = self.cval(v["ref"])
            return Ref(c)
        if "str" in v:
            return Opq("str", v["str"])
        if "closure" in v:
            return Agg("closure:" + v["closure"], ())
        if "fn" in v:
            return FnV(v["fn"])
        return Opq("const", str(v)[:200])

    # ------------------------------------------------------------ execution
    def run(self, st, b, args, keep=False):
        self.executed.add(b["path"])
        if not b.get("body"):
            raise Unsupported("no body for %s" % b.get("path"))
        if self.depth > 60:
            raise Unsupported("recursion")
        B = b["body"]
        if B["argc"] != len(args):
            raise Unsupported("arguments of %s" % b["path"])
        self.n += 1
        F = (("fr", self.n), b)
        st = st.fork()
        for i in range(len(B["locals"])):
            st.cells[(F[0], i)] = UNDEF
        for i, a in enumerate(args):
            st.cells[(F[0], i + 1)] = a
        self.depth += 1
        out = []
        try:
            work = [(0, st)]
            while work:
                bb, s = work.pop()
                self.steps += 1
                if self.steps > 60000:
                    raise Unsupported("step budget")
                bl = B["blocks"][bb]
                for x in bl["s"]:
                    if "p" in x:
                        v = self.rvalue(s, F, x["r"])
                        self.write(s, self.place(s, F, x["p"]), v)
                    elif "setdiscr" in x:
                        raise Unsupported("set discriminant")
                for nb, s2 in self.term(s, F, bl["t"]):
                    if nb is None:
                        v = s2.cells[(F[0], 0)]
                        if v is UNDEF and self.tys(B["locals"][0]) == "()":
                            v = UNIT
                        if not keep:
                            for i in range(len(B["locals"])):
                                s2.cells.pop((F[0], i), None)
                        out.append((s2, v))
                    else:
                        work.append((nb, s2.fork()))
        finally:
            self.depth -= 1
        return out

    def rvalue(self, st, F, r):
        if "use" in r:
            return self.operand(st, F, r["use"])
        if "ref" in r or "raw" in r:
            return self.place(st, F, r.get("ref") or r.get("raw"))
        if "agg" in r:
            os = [self.operand(st, F, o) for o in r.get("o", [])]
            a = r["agg"]
            if a == "tuple":
                return Agg("tuple", os)
            if a == "adt":
                return Agg(r["adt"], os, r.get("var") or 0)
            if a == "closure":
                return Agg("closure:" + r["id"], os)
            if a == "array":
                return Agg("array", os)
            raise Unsupported("aggregate %s" % a)
        if "discr" in r:
            v = self.read(st, self.place(st, F, r["discr"]))
            if not isinstance(v, Agg):
                raise Unsupported("discriminant of %r" % (v,))
            ad = self.adts.get(v.tag)
            if ad and ad["kind"] == "enum":
                d = ad["variants"][v.var].get("discr")
                return d if d is not None else v.var
            return v.var
        if "bin" in r:
            return self.binop(r["bin"], self.operand(st, F, r["a"]), self.operand(st, F, r["b"]))
        if "un" in r:
            v = self.operand(st, F, r["a"])
            if r["un"] == "Neg":
                return z3.fpNeg(v) if z3.is_fp(v) else -v
            if r["un"] == "Not" and (isinstance(v, bool) or z3.is_bool(v)):
                return (not v) if isinstance(v, bool) else z3.Not(v)
            raise Unsupported("unary")
        if "cast" in r:
            k = r["cast"]
            v = self.operand(st, F, r["o"])
            if k.startswith("PointerCoercion"):
                return v
            if k == "IntToFloat" and isinstance(v, int):
                return z3.FPVal(float(v), F64)
            if k == "IntToInt" and isinstance(v, (int, bool)):
                return int(v)
            if k == "Transmute" and "u64" == self.tys(r["ty"]) and z3.is_fp(v):
                return z3.fpToIEEEBV(v)
            raise Unsupported("cast %s" % k)
        raise Unsupported("rvalue")

    def binop(self, op, a, b):
        if z3.is_fp(a) and z3.is_fp(b):
            f = {"Add": lambda: z3.fpAdd(RNE, a, b), "Sub": lambda: z3.fpSub(RNE, a, b), "Mul": lambda: z3.fpMul(RNE, a, b),
                 "Div": lambda: z3.fpDiv(RNE, a, b), "Lt": lambda: z3.fpLT(a, b), "Le": lambda: z3.fpLEQ(a, b),
                 "Gt": lambda: z3.fpGT(a, b), "Ge": lambda: z3.fpGEQ(a, b), "Eq": lambda: z3.fpEQ(a, b),
                 "Ne": lambda: z3.Not(z3.fpEQ(a, b))}.get(op)
            if f is None:
                raise Unsupported("float %s" % op)
            return f()
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            f = {"Eq": lambda: a == b, "Ne": lambda: a != b, "Lt": lambda: a < b, "Le": lambda: a <= b, "Gt": lambda: a > b,
                 "Ge": lambda: a >= b, "BitAnd": lambda: a & b, "BitOr": lambda: a | b, "BitXor": lambda: a ^ b,
                 "AddWithOverflow": lambda: Agg("tuple", (a + b, False))}.get(op)
            if f is None:
                raise Unsupported("integer %s" % op)
            return f()
        if (z3.is_bool(a) or isinstance(a, bool)) and (z3.is_bool(b) or isinstance(b, bool)):
            f = {"Eq": lambda: z3.BoolVal(a) == b if isinstance(a, bool) else a == b, "BitAnd": lambda: z3.And(a, b),
                 "BitOr": lambda: z3.Or(a, b)}.get(op)
            if f:
                return f()
        if z3.is_bv(a) or z3.is_bv(b):
            x = a if z3.is_bv(a) else z3.BitVecVal(a, b.size())
            y = b if z3.is_bv(b) else z3.BitVecVal(b, a.size())
            f = {"Eq": lambda: x == y, "Ne": lambda: x != y, "Lt": lambda: z3.ULT(x, y), "Le": lambda: z3.ULE(x, y),
                 "Gt": lambda: z3.UGT(x, y), "Ge": lambda: z3.UGE(x, y), "BitAnd": lambda: x & y, "BitOr": lambda: x | y,
                 "Shr": lambda: z3.LShR(x, y), "BitXor": lambda: x ^ y}.get(op)
            if f:
                return f()
        raise Unsupported("%s on %s, %s" % (op, type(a).__name__, type(b).__name__))

    def term(self, st, F, t):
        if "goto" in t:
            return [(t["goto"], st)]
        if "ret" in t:
            return [(None, st)]
        if "drop" in t:
            return [(t["to"], st)]
        if "unreachable" in t:
            if self.sat(list(st.pc)):
                self.panics.append((F[1]["path"], "unreachable code", st.pc))
            return []
        if "resume" in t:
            return []
        if "assert" in t:
            v = self.operand(st, F, t["assert"])
            out = []
            for truth, s in self.split(st, v):
                if truth == bool(t["exp"]):
                    out.append((t["to"], s))
                else:
                    self.panics.append((F[1]["path"], t.get("msg", "assertion"), s.pc))
            return out
        if "switch" in t:
            v = self.operand(st, F, t["switch"])
            if isinstance(v, bool) or z3.is_bool(v):
                tg = {int(a): b for a, b in t["t"]}
                return [(tg.get(int(x), t["else"]), s) for x, s in self.split(st, v)]
            if isinstance(v, int):
                for a, b in t["t"]:
                    if int(a) == v:
                        return [(b, st)]
                return [(t["else"], st)]
            if z3.is_bv(v):
                out, cur = [], st
                for a, b in t["t"]:
                    nxt = None
                    for truth, s in self.split(cur, v == int(a)):
                        if truth:
                            out.append((b, s))
                        else:
                            nxt = s
                    if nxt is None:
                        return out
                    cur = nxt
                return out + [(t["else"], cur)]
            raise Unsupported("switch")
        if "call" in t:
            call = t["call"]
            args = [self.operand(st, F, a) for a in t["a"]]
            k = call.get("k") if isinstance(call, dict) else None
            if k is not None and k.get("fn") is not None:
                rs = self.call(st, k["fn"], args, F)
            else:
                rs = self.call_value(st, self.operand(st, F, call), args, F)
            out = []
            for s, v in rs:
                if t.get("to") is None:
                    if self.sat(list(s.pc)):
                        self.panics.append((F[1]["path"], "diverging call", s.pc))
                    continue
                s = s.fork()
                self.write(s, self.place(s, F, t["d"]), v)
                out.append((t["to"], s))
            return out
        raise Unsupported("terminator")

    # ------------------------------------------------------------ calls
    def local_target(self, fn):
        res = fn.get("res")
        if res and res.get("local"):
            return self.by_id.get(res["id"])
        if fn.get("local") and (not fn.get("trait") or not res):
            b = self.by_id.get(fn["id"])
            return b if b and b.get("body") else None
        return None

    def find_impl(self, trait, name, self_ty, targ=None):
        """a local implementation of trait for the type named self_ty"""
        def base(s):
            return s.split("<")[0].split("::")[-1].strip("&' ")
        for b in self.d["bodies"]:
            if b.get("name") != name or not b.get("impl_trait") or not b.get("body"):
                continue
            if b["impl_trait"].split("<")[0].split("::")[-1] != trait:
                continue
            if self_ty is not None and b.get("impl_self") != self_ty:
                continue
            if targ is not None:
                L = b["body"]["locals"]
                if self.tys(L[1]) != targ:
                    continue
            return b
        return None

    def deref(self, st, v):
        while isinstance(v, Ref):
            v = self.read(st, v)
        return v

    def call_value(self, st, f, args, F=None):
        ref = None
        while isinstance(f, Ref):
            ref, f = f, self.read(st, f)
        if isinstance(f, FnV):
            return self.call(st, f.fn, args, F)
        if isinstance(f, Agg) and f.tag.startswith("closure:"):
            b = self.by_id.get(f.tag[8:])
            if b is None:
                raise Unsupported("closure")
            if self.types[b["body"]["locals"][1]]["k"] in ("ref", "ptr"):
                f = ref or self.alloc(st, f)
            return self.run(st, b, [f] + list(args))
        raise Unsupported("call of %r" % (f,))

    def call(self, st, fn, args, F=None):
        if fn.get("ctor"):
            return [(st, Agg(fn["ctor"] if isinstance(fn["ctor"], str) else fn["path"], args, fn.get("variant") or 0))]
        b = self.local_target(fn)
        h = self.hook(st, fn, b, args, F)
        if h is not None:
            return h
        if b is not None:
            self.inlined.add(b["path"])
            return self.run(st, b, args)
        p = norm(fn.get("path") or "")
        name = fn.get("name") or p.rsplit("::", 1)[-1]
        self.trusted.add(p)
        return self.std(st, fn, p, name, args, F)

    def hook(self, st, fn, b, args, F):
        return None

    def std(self, st, fn, p, name, a, F):
        one = lambda v: [(st, v)]
        path = fn.get("path") or ""
        trait = (fn.get("trait") or "")
        targs = [self.tys(i) for i in fn.get("args", []) if isinstance(i, int)]
        if p.startswith(("core::f64", "std::f64", "libm::", "core::num::f64", "std::num::f64")) or "<impl f64>" in path:
            x = a[0]
            if z3.is_fp(x):
                if name == "is_finite":
                    return one(fin(x))
                if name == "is_nan":
                    return one(z3.fpIsNaN(x))
                if name == "is_infinite":
                    return one(z3.fpIsInf(x))
                if name == "is_sign_negative":
                    return one(z3.Extract(63, 63, z3.fpToIEEEBV(x)) == 1)
                if name in ("abs", "fabs"):
                    return one(z3.fpAbs(x))
                if name in ("powf", "pow"):
                    return one(POW(x, a[1]))
                if name == "mul_add" or name == "fma":
                    return one(z3.fpFMA(RNE, x, a[1], a[2]))
                if name == "to_bits":
                    return one(z3.fpToIEEEBV(x))
                if name in ("max", "min"):
                    raise Unsupported(name)
            raise Unsupported("f64::%s" % name)
        if p.startswith("core::ops::arith::") or p.startswith("core::ops::bit::"):
            xs = [self.deref(st, x) for x in a]
            if name in ("add", "sub", "mul", "div"):
                return one(self.binop(name.capitalize(), *xs))
            if name == "neg":
                return one(z3.fpNeg(xs[0]))
        if p.startswith("core::cmp::") and len(a) == 2:
            x, y = self.deref(st, a[0]), self.deref(st, a[1])
            op = {"eq": "Eq", "ne": "Ne", "lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}.get(name)
            if isinstance(x, Opq) and isinstance(y, Opq) and x.kind == y.kind == "str" and op in ("Eq", "Ne"):
                return one((x.name == y.name) == (op == "Eq"))
            if op:
                return one(self.binop(op, x, y))
        if p.startswith("core::option::Option") and isinstance(self.deref(st, a[0]), Agg):
            r = self.optres(st, name, a, F, OPT)
            if r is not None:
                return r
        if p.startswith("core::result::Result") and isinstance(self.deref(st, a[0]), Agg):
            r = self.optres(st, name, a, F, RES)
            if r is not None:
                return r
        if "core::bool" in path or "<impl bool>" in path:
            out = []
            for t, s in self.split(st, a[0]):
                if name == "then_some":
                    out.append((s, some(a[1]) if t else NONE))
                elif name == "then":
                    out += [(s2, some(v)) for s2, v in self.call_value(s, a[1], [], F)] if t else [(s, NONE)]
                else:
                    raise Unsupported("bool::%s" % name)
            return out
        if name == "branch" and "try_trait" in p:
            v = a[0]
            if v.tag == RES:
                return one(Agg(CF, (v.f[0],), 0) if v.var == 0 else Agg(CF, (v,), 1))
            if v.tag == OPT:
                return one(Agg(CF, (v.f[0],), 0) if v.var == 1 else Agg(CF, (v,), 1))
        if name == "from_residual":
            v = a[0]
            if v.tag == RES and v.var == 1:
                src, dst = self.resid_types(fn)
                if src == dst or src is None:
                    return one(v)
                b = self.find_impl("From", "from", dst, src)
                if b is not None:
                    return [(s, err(x)) for s, x in self.run(st, b, [v.f[0]])]
                return one(v)
            return one(v)
        if p.startswith("core::convert::"):
            return self.convert(st, fn, name, a, targs, F)
        if name == "clone" and len(a) == 1:
            return one(self.deref(st, a[0]))
        if name == "parse" and "str" in p:
            if targs and targs[-1] == "f64":
                s1, s2 = st.fork(), st.fork()
                x = fv(self.fresh("parsed"))
                s1.facts = s1.facts + (("parsed", x),)
                s2.facts = s2.facts + (("parse error", None),)
                return [(s1, ok(x)), (s2, err(Opq("tok", "ParseFloatError")))]
            b = self.find_impl("FromStr", "from_str", targs[-1] if targs else None)
            if b is not None:
                return self.run(st, b, a)
        if p.startswith("core::str") and name in ("trim", "trim_start", "trim_end", "as_ref", "as_bytes", "to_owned"):
            return one(Opq("tok", name + " " + repr(a[0])))
        if name == "phantom_data" or "PhantomData" in p:
            return one(UNIT)
        if p.startswith(("core::panicking", "core::option::expect_failed", "core::option::unwrap_failed",
                         "core::result::unwrap_failed")):
            return one(UNIT)
        raise Unsupported("call of %s" % p)

    def resid_types(self, fn):
        """error types (source, destination) of a FromResidual call"""
        def etype(i):
            t = self.types[i]
            a = t.get("args") or []
            return self.tys(a[1]) if len(a) > 1 else None
        ix = [i for i in fn.get("args", []) if isinstance(i, int)]
        if len(ix) >= 2:
            return etype(ix[1]), etype(ix[0])
        return None, None

    def optres(self, st, name, a, F, tag):
        v = self.deref(st, a[0])
        if v.tag != tag:
            return None
        good = v.var == (1 if tag == OPT else 0)
        mk = some if tag == OPT else ok
        one = lambda x: [(st, x)]
        if name in ("is_some", "is_ok"):
            return one(good)
        if name in ("is_none", "is_err"):
            return one(not good)
        if name == "map":
            return [(s, mk(x)) for s, x in self.call_value(st, a[1], [v.f[0]], F)] if good else one(v)
        if name == "and_then":
            return self.call_value(st, a[1], [v.f[0]], F) if good else one(v)
        if name == "map_err":
            return one(v) if good else [(s, err(x)) for s, x in self.call_value(st, a[1], [v.f[0]], F)]
        if name == "ok_or":
            return one(ok(v.f[0])) if good else one(err(a[1]))
        if name == "ok_or_else":
            return one(ok(v.f[0])) if good else [(s, err(x)) for s, x in self.call_value(st, a[1], [], F)]
        if name == "ok":
            return one(some(v.f[0])) if good else one(NONE)
        if name == "filter":
            if not good:
                return one(v)
            out = []
            c = self.alloc(st, v.f[0])
            for s, x in self.call_value(st, a[1], [c], F):
                out += [(s2, v if t else NONE) for t, s2 in self.split(s, x)]
            return out
        if name == "take" and isinstance(a[0], Ref):
            s = st.fork()
            self.write(s, a[0], NONE)
            return [(s, v)]
        if name in ("unwrap", "expect"):
            if good:
                return one(v.f[0])
            self.panics.append((F[1]["path"] if F else "", name, st.pc))
            return []
        if name in ("unwrap_or",):
            return one(v.f[0] if good else a[1])
        if name == "copied" or name == "cloned":
            return one(mk(self.deref(st, v.f[0])) if good else v)
        return None

    def convert(self, st, fn, name, a, targs, F):
        if name in ("into", "try_into"):
            src, dst = (targs + [None, None])[:2]
            tr, m = ("From", "from") if name == "into" else ("TryFrom", "try_from")
        elif name in ("from", "try_from"):
            dst, src = (targs + [None, None])[:2]
            tr, m = ("From", "from") if name == "from" else ("TryFrom", "try_from")
        else:
            raise Unsupported("conversion %s" % name)
        b = self.find_impl(tr, m, dst, src)
        if b is not None:
            self.inlined.add(b["path"])
            return self.run(st, b, a)
        if tr == "TryFrom":
            b = self.find_impl("From", "from", dst, src)
            if b is not None:
                return [(s, ok(v)) for s, v in self.run(st, b, a)]
        if src == dst:
            return [(st, a[0] if tr == "From" else ok(a[0]))]
        if dst and not dst.startswith(("f64", "u", "i")) and tr == "From" and isinstance(a[0], Opq):
            return [(st, a[0])]
        raise Unsupported("conversion %s -> %s" % (src, dst))


ARITH_KINDS = (z3.Z3_OP_FPA_ADD, z3.Z3_OP_FPA_SUB, z3.Z3_OP_FPA_MUL, z3.Z3_OP_FPA_DIV, z3.Z3_OP_FPA_FMA, z3.Z3_OP_FPA_SQRT)


def abstract(es):
    """replace every outermost arithmetic term by an unknown (sound for unsatisfiability)"""
    tab = []

    def look(e):
        if z3.is_app(e) and e.decl().kind() in ARITH_KINDS:
            if not any(x.eq(e) for x, _ in tab):
                tab.append((e, z3.FP("abs!%d" % len(tab), F64)))
            return
        for c in e.children():
            look(c)
    for e in es:
        look(e)
    return [z3.substitute(e, *tab) for e in es] if tab else None


def check(cs, goal, timeout=30000):
    """(verdict, model) of cs |= goal"""
    g = [c for c in cs if not isinstance(c, bool)] + [z3.Not(goal)]
    ab = abstract(g)
    for e in ([ab] if ab else []) + [g]:
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(*e)
        r = s.check()
        if r == z3.unsat:
            return True, None
        if r == z3.sat and e is g:
            return False, s.model()
    return None, None


def model_float(m, x):
    """the double that model m gives x, as hexadecimal bits"""
    v = m.eval(z3.fpToIEEEBV(x), model_completion=True)
    try:
        return v.as_long()
    except AttributeError:
        return None
