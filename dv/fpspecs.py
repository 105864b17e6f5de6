"""Contracts decided on the bit-precise executor: the parameter type (C01) and serialization (C13)."""
import json
import struct
import z3
from fp import *
from sym import Ob
from logic import Verdict
import term as T_

FINNAME = "FiniteAboveNegOneF64"


def bits_float(b):
    return struct.unpack(">d", struct.pack(">Q", b))[0]


class FUnit(FEngine):
    """an FEngine that collects obligations"""

    def __init__(self, dump):
        super().__init__(dump)
        self.obs = []
        self.used_contracts = set()
        self.notes = []
        self.hints = []
        self.names = {}

    def inp(self, name):
        x = fv(name)
        self.names[name] = x
        return x

    def oblige(self, st, where, text, goal, kind="post"):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        ok, m = check(list(st.pc), goal)
        det = ""
        if ok is False:
            h = {}
            for n, x in self.names.items():
                b = model_float(m, x)
                if b is not None:
                    h[n] = b
            for k, x in st.facts:
                if x is not None:
                    b = model_float(m, x)
                    if b is not None:
                        h[k] = b
            det = ", ".join("%s = %r" % (k, bits_float(v)) for k, v in h.items())
            self.hints.append({k: v for k, v in h.items()})
        self.obs.append(Ob(kind, where, text, Verdict(ok, "z3 floating point", None, det), T_.T, ()))
        return ok


def fin_uid(eng):
    c = [u for u, a in eng.adts.items() if a.get("local") and a["path"].split("::")[-1] == FINNAME]
    if len(c) != 1:
        raise Unsupported("type %s not found" % FINNAME)
    return c[0]


def fin_of(eng, v):
    """the f64 inside a parameter value"""
    if isinstance(v, Agg) and v.tag == fin_uid(eng) and len(v.f) == 1 and z3.is_fp(v.f[0]):
        return v.f[0]
    raise Unsupported("representation of the parameter type: %r" % (v,))


def fin_bodies(eng):
    """functions of the parameter type: name, trait, body"""
    out = []
    for b in eng.d["bodies"]:
        if b["kind"] == "Closure" or not b.get("body"):
            continue
        s = (b.get("impl_self") or "")
        if s.split("::")[-1] == FINNAME and not s.startswith("&"):
            out.append((b["name"], (b.get("impl_trait") or "").split("<")[0].split("::")[-1], b))
    return out


def find(eng, name, trait="", nth=None, arg=None):
    for n, t, b in fin_bodies(eng):
        if n == name and t == trait and (arg is None or eng.tys(b["body"]["locals"][1]).endswith(arg)):
            return b
    raise Unsupported("%s::%s not found" % (FINNAME, name))


def expect_opt(eng, s, b, v, good, want, tag):
    """v is Some/Ok(want as parameter) exactly when good"""
    if not (isinstance(v, Agg) and v.tag == tag):
        raise Unsupported("%s returns %r" % (b["path"], v))
    isgood = v.var == (1 if tag == OPT else 0)
    if isgood:
        x = fin_of(eng, v.f[0])
        eng.oblige(s, b["path"], "yields a value only when the f64 result is finite and above -1", good)
        eng.oblige(s, b["path"], "yields exactly that f64 result", same_bits(x, want))
        eng.oblige(s, b["path"], "type invariant: finite and above -1", valid(x), "invariant")
    else:
        eng.oblige(s, b["path"], "reports failure only when the f64 result is not finite or not above -1", z3.Not(good))


def nopanic(eng, b):
    for where, what, pc in eng.panics:
        st = St({}, tuple(pc))
        eng.oblige(st, where, "no panic: %s" % what, False, "panic")
    eng.panics = []
    eng.oblige(St({}, ()), b["path"], "returns normally", True, "panic")


def param_new(eng):
    x = eng.inp("x")
    b = find(eng, "new")
    for s, v in eng.run(St({}, ()), b, [x]):
        expect_opt(eng, s, b, v, valid(x), x, OPT)
    nopanic(eng, b)


def param_get(eng):
    x = eng.inp("x")
    me = Agg(fin_uid(eng), (x,))
    b = find(eng, "get")
    st = St({}, (valid(x),))
    r = eng.alloc(st, me)
    byref = eng.types[b["body"]["locals"][1]]["k"] == "ref"
    for s, v in eng.run(st, b, [r if byref else me]):
        eng.oblige(s, b["path"], "returns exactly the value", same_bits(v, x))
    for c in eng.d["bodies"]:
        if c.get("name") == "from" and (c.get("impl_trait") or "").split("<")[0].endswith("From") and c.get("impl_self") == "f64" and \
                c.get("body") and eng.tys(c["body"]["locals"][1]).endswith(FINNAME):
            for s, v in eng.run(st, c, [me]):
                eng.oblige(s, c["path"], "returns exactly the value", same_bits(v, x))
            break
    else:
        raise Unsupported("From<%s> for f64 not found" % FINNAME)
    nopanic(eng, b)


def param_default(eng):
    b = find(eng, "default", "Default")
    for s, v in eng.run(St({}, ()), b, []):
        x = fin_of(eng, v)
        eng.oblige(s, b["path"], "the default is 0", z3.fpIsZero(x))
    nopanic(eng, b)


def param_arith(name, op):
    def go(eng):
        x, y = eng.inp("x"), eng.inp("y")
        b = find(eng, name)
        want = op(x, y)
        me = Agg(fin_uid(eng), (x,))
        for s, v in eng.run(St({}, (valid(x),)), b, [me, y]):
            expect_opt(eng, s, b, v, valid(want), want, OPT)
        nopanic(eng, b)
    return go


ARITH = {"checked_add": lambda x, y: z3.fpAdd(RNE, x, y), "checked_sub": lambda x, y: z3.fpSub(RNE, x, y),
         "checked_mul": lambda x, y: z3.fpMul(RNE, x, y), "checked_div": lambda x, y: z3.fpDiv(RNE, x, y),
         "checked_pow": lambda x, y: POW(x, y)}


def param_try_from(eng):
    x = eng.inp("x")
    b = find(eng, "try_from", "TryFrom", arg="f64")
    for s, v in eng.run(St({}, ()), b, [x]):
        expect_opt(eng, s, b, v, valid(x), x, RES)
    nopanic(eng, b)


def param_from_str(eng):
    b = find(eng, "from_str", "FromStr")
    st = St({}, ())
    for s, v in eng.run(st, b, [eng.alloc(st, Opq("tok", "text"))]):
        parsed = [x for k, x in s.facts if k == "parsed"]
        if len(s.facts) != 1:
            raise Unsupported("the text is parsed %d times" % len(s.facts))
        if parsed:
            expect_opt(eng, s, b, v, valid(parsed[0]), parsed[0], RES)
        else:
            eng.oblige(s, b["path"], "text that is no f64 is an error", bool(v.tag == RES and v.var == 1))
    nopanic(eng, b)


def param_clone(eng):
    x = eng.inp("x")
    b = find(eng, "clone", "Clone")
    st = St({}, (valid(x),))
    r = eng.alloc(st, Agg(fin_uid(eng), (x,)))
    for s, v in eng.run(st, b, [r]):
        eng.oblige(s, b["path"], "clone is the same value", same_bits(fin_of(eng, v), x))


# ---------------------------------------------------------------- type invariant at every construction site
def walk(x, f):
    f(x)
    if isinstance(x, dict):
        for v in x.values():
            walk(v, f)
    elif isinstance(x, list):
        for v in x:
            walk(v, f)


def bodies_of(b):
    return [B for B in [b.get("body")] + list(b.get("promoted") or []) if B]


def construction_sites(eng):
    """every place in the crate that can make or change a parameter value"""
    uid = fin_uid(eng)
    sites = {}
    consts = []
    for b in eng.d["bodies"]:
        for B in bodies_of(b):
            for bl in B["blocks"]:
                for s in bl["s"]:
                    if "p" not in s:
                        continue
                    r = s["r"]
                    if isinstance(r, dict) and r.get("agg") == "adt" and r.get("adt") == uid:
                        sites.setdefault(b["id"], (b, "constructs"))
                    if isinstance(r, dict) and "cast" in r and "Transmute" in r["cast"] and FINNAME in eng.tys(r["ty"]):
                        sites.setdefault(b["id"], (b, "transmutes"))
                    if into_field(eng, B, s["p"], uid):
                        sites.setdefault(b["id"], (b, "assigns the field"))
                    if isinstance(r, dict) and r.get("mut") and ("ref" in r or "raw" in r) and \
                            into_field(eng, B, r.get("ref") or r.get("raw"), uid):
                        sites.setdefault(b["id"], (b, "borrows the field mutably"))
            def look(x):
                if isinstance(x, dict):
                    if x.get("adt") == uid and "fields" in x:
                        consts.append((b, x))
                    fn = x.get("fn")
                    if isinstance(fn, dict) and fn.get("ctor") and (fn.get("ctor") == uid or (fn.get("path") or "").endswith("::" + FINNAME)):
                        sites.setdefault(b["id"], (b, "uses the constructor"))
            walk(B["blocks"], look)
    for nm, c in (eng.d.get("statics") or {}).items():
        def look2(x):
            if isinstance(x, dict) and x.get("adt") == uid and "fields" in x:
                consts.append(({"path": nm}, x))
        walk(c, look2)
    return sites, consts


def into_field(eng, B, p, uid):
    """does the place end inside a parameter value"""
    ty = B["locals"][p[0]]
    hit = False
    for e in p[1]:
        t = eng.types[ty] if ty is not None else {}
        if t.get("adt") == uid or (t.get("s") or "").split("::")[-1] == FINNAME and t.get("k") == "adt":
            hit = True
        if e == "*":
            ty = t["args"][0] if t.get("box") else t.get("elem")
        elif isinstance(e, dict) and "f" in e:
            ty = e.get("ty")
        elif isinstance(e, dict) and "v" in e:
            pass
        else:
            ty = t.get("elem")
    return hit


def sym_arg(eng, st, ty, k):
    """an arbitrary argument of the given type"""
    t = eng.types[ty]
    s = t.get("s", "")
    if s == "f64":
        return eng.inp("a%d" % k)
    if s.split("::")[-1] == FINNAME and t["k"] == "adt":
        x = eng.inp("a%d" % k)
        st.pc = st.pc + (valid(x),)
        return Agg(fin_uid(eng), (x,))
    if t["k"] == "ref" and s not in ("&str",):
        return eng.alloc(st, sym_arg(eng, st, t["elem"], k))
    if s == "&str":
        return eng.alloc(st, Opq("tok", "text"))
    if t["k"] == "adt" and t.get("adt") in eng.adts and eng.adts[t["adt"]]["kind"] == "struct" and eng.adts[t["adt"]].get("local"):
        v = eng.adts[t["adt"]]["variants"][0]
        fs = []
        for j, nm in enumerate(v["tys"]):
            if nm == "f64":
                fs.append(eng.inp("a%d_%d" % (k, j)))
            elif nm.endswith(FINNAME):
                x = eng.inp("a%d_%d" % (k, j))
                st.pc = st.pc + (valid(x),)
                fs.append(Agg(fin_uid(eng), (x,)))
            else:
                fs.append(Opq("tok", nm))
        return Agg(t["adt"], fs)
    if s == "bool":
        return z3.Bool("b%d" % k)
    raise Unsupported("argument of type %s" % s)


def params_in(v, uid, out):
    if isinstance(v, Agg):
        if v.tag == uid:
            out.append(v.f[0])
        for x in v.f:
            params_in(x, uid, out)


def site_invariant(b):
    """every parameter value that the function returns or leaves behind is valid"""
    def go(eng):
        uid = fin_uid(eng)
        st = St({}, ())
        args = [sym_arg(eng, st, b["body"]["locals"][i], i) for i in range(1, b["body"]["argc"] + 1)]
        for s, v in eng.run(st, b, args):
            out = []
            params_in(v, uid, out)
            for c in list(s.cells.values()):
                params_in(c, uid, out)
            for x in out:
                eng.oblige(s, b["path"], "type invariant: finite and above -1", valid(x), "invariant")
            eng.oblige(s, b["path"], "every parameter value is constructed under the invariant", True, "invariant")
    return go


def const_invariant(eng):
    uid = fin_uid(eng)
    _, consts = construction_sites(eng)
    for b, c in consts:
        v = eng.cval(c)
        eng.oblige(St({}, ()), b["path"], "constant parameter is finite and above -1", valid(fin_of(eng, v)), "invariant")
    if not consts:
        eng.oblige(St({}, ()), "constants", "no constant parameter in the crate", True, "invariant")


# ---------------------------------------------------------------- serde
class Serde(FUnit):
    """serde's data model as contracts of its traits: a serializer records the struct's fields, a
    deserializer hands them back as a map (keys as strings, bytes or indices) or as a sequence"""

    def ttype(self, fn, k=-1):
        ix = [i for i in fn.get("args", []) if isinstance(i, int)]
        return self.tys(ix[k]) if ix else None

    def hook(self, st, fn, b, args, F):
        tr = (fn.get("trait") or "").split("<")[0]
        if not tr.startswith(("serde", "serde_core")):
            return None
        t = tr.split("::")[-1]
        name = fn.get("name")
        if t == "Serializer":
            if name == "serialize_struct":
                return [(st, ok(Agg("ser", (args[1],))))]
            if name == "serialize_newtype_struct":
                return [(st, ok(Agg("doc:new", (self.payload(st, args[2]), Opq("ty", self.ttype(fn))))))]
            if name == "serialize_f64":
                return [(st, ok(Agg("doc:val", (args[1], Opq("ty", "f64")))))]
            raise Unsupported("Serializer::%s" % name)
        if t == "SerializeStruct":
            if name == "serialize_field":
                s = st.fork()
                cur = self.read(s, args[0])
                self.write(s, args[0], Agg("ser", cur.f + (Agg("field", (self.deref(s, args[1]), self.payload(st, args[2]), Opq("ty", self.ttype(fn)))),)))
                return [(s, ok(UNIT))]
            if name == "skip_field":
                return [(st, ok(UNIT))]
            if name == "end":
                return [(st, ok(Agg("doc:struct", args[0].f[1:])))]
        if t == "Serialize" and b is None and name == "serialize":
            v = self.payload(st, args[0])
            return [(st, ok(Agg("doc:val", (v, Opq("ty", self.ttype(fn, 0))))))]
        if t == "Deserializer":
            d = args[0]
            vis = args[-1]
            doc = d.f[0]
            if name == "deserialize_struct" and doc.tag == "doc:struct":
                out = self.visit(st, vis, "visit_map", [self.access("map", doc)], F, required=True)
                return out + self.visit(st, vis, "visit_seq", [self.access("seq", doc)], F)
            if name == "deserialize_newtype_struct" and doc.tag == "doc:new":
                inner = Agg("de", (Agg("doc:val", doc.f),))
                out = self.visit(st, vis, "visit_newtype_struct", [inner], F, required=True)
                seqdoc = Agg("doc:struct", (Agg("field", (Opq("str", "0"),) + doc.f),))
                return out + self.visit(st, vis, "visit_seq", [self.access("seq", seqdoc)], F)
            if name == "deserialize_identifier" and doc.tag == "doc:key":
                key, i = doc.f
                key = self.alloc(st, key)
                out = self.visit(st, vis, "visit_str", [key], F, required=True)
                return out + self.visit(st, vis, "visit_u64", [i], F)
            raise Unsupported("Deserializer::%s of %s" % (name, doc.tag))
        if t == "MapAccess":
            m = self.read(st, args[0])
            if name == "next_key":
                if not m.f:
                    return [(st, ok(NONE))]
                de = Agg("de", (Agg("doc:key", (m.f[0].f[0], m.var - len(m.f))),))
                out = []
                for s, v in self.deserialize(st, self.ttype(fn), de, F):
                    out.append((s, ok(some(v.f[0])) if v.var == 0 else v))
                return out
            if name == "next_value":
                fld = m.f[0]
                s = st.fork()
                self.write(s, args[0], Agg(m.tag, m.f[1:], m.var))
                return self.value(s, self.ttype(fn), fld, F)
            raise Unsupported("MapAccess::%s" % name)
        if t == "SeqAccess":
            m = self.read(st, args[0])
            if name == "next_element":
                if not m.f:
                    return [(st, ok(NONE))]
                fld = m.f[0]
                s = st.fork()
                self.write(s, args[0], Agg(m.tag, m.f[1:], m.var))
                return [(s2, ok(some(v.f[0])) if v.var == 0 else v) for s2, v in self.value(s, self.ttype(fn), fld, F)]
            raise Unsupported("SeqAccess::%s" % name)
        if t == "Deserialize" and name == "deserialize":
            return self.deserialize(st, self.ttype(fn, 0), args[0], F)
        if t == "Error":
            return [(st, Opq("tok", "serde error %s" % name))]
        if t == "Visitor" and b is None:
            return [(st, err(Opq("tok", "unexpected type")))]
        return None

    def payload(self, st, v):
        return self.deref(st, v)

    def access(self, kind, doc):
        return Agg(kind, doc.f, len(doc.f))

    def visit(self, st, vis, name, args, F, required=False):
        for b in self.d["bodies"]:
            if b.get("name") == name and b.get("body") and (b.get("impl_trait") or "").split("<")[0].endswith("Visitor"):
                t = self.types[b["body"]["locals"][1]]
                if t.get("adt") == vis.tag:
                    self.inlined.add(b["path"])
                    return self.run(st, b, [vis] + args)
        if required:
            raise Unsupported("visitor without %s" % name)
        return []

    def deserialize(self, st, ty, de, F):
        b = self.find_impl("Deserialize", "deserialize", ty)
        if b is None and ty is not None:
            # __Field and friends: compare the last path segment of the same function
            for c in self.d["bodies"]:
                if c.get("name") == "deserialize" and (c.get("impl_trait") or "").split("<")[0].endswith("Deserialize") and c.get("body") \
                        and strip_lt(c.get("impl_self") or "") == strip_lt(ty):
                    b = c
                    break
        if b is not None:
            self.inlined.add(b["path"])
            return self.run(st, b, [de])
        doc = de.f[0]
        if doc.tag == "doc:val":
            if same_type(ty, doc.f[1].name):
                return [(st, ok(doc.f[0]))]
            raise Unsupported("deserialization of %s as %s" % (doc.f[1].name, ty))
        raise Unsupported("Deserialize for %s" % ty)

    def value(self, st, ty, fld, F):
        """the value of a field deserialized as ty: a type's own round trip is its own obligation"""
        if ty is not None and ty.endswith("IgnoredAny"):
            return [(st, ok(Agg("ignored", ())))]
        if same_type(ty, fld.f[2].name):
            self.used_contracts.add("serde round trip of %s" % ty)
            return [(st, ok(fld.f[1]))]
        raise Unsupported("field serialized as %s, read as %s" % (fld.f[2].name, ty))


def strip_lt(s):
    import re
    return re.sub(r"<'[a-z_]+>|'[a-z_]+ ", "", s)


def same_type(a, b):
    return a is not None and b is not None and strip_lt(a.lstrip("&")) == strip_lt(b.lstrip("&"))


def impl_of(eng, struct, trait, name):
    for b in eng.d["bodies"]:
        tr = (b.get("impl_trait") or "").split("<")[0]
        if b.get("name") == name and tr.split("::")[-1] == trait and tr.startswith(("serde", "serde_core")) and b.get("body") and \
                (b.get("impl_self") or "").split("<")[0].split("::")[-1] == struct:
            return b
    raise Unsupported("no serde %s for %s" % (trait, struct))


def struct_uid(eng, struct):
    c = [(u, a) for u, a in eng.adts.items() if a.get("local") and a["path"].split("::")[-1] == struct]
    if len(c) != 1:
        raise Unsupported("type %s not found" % struct)
    return c[0]


def serde_roundtrip(struct):
    """deserialize(serialize(v)) == v for every value; each field is written once under its own name"""
    def go(eng):
        uid, ad = struct_uid(eng, struct)
        va = ad["variants"][0]
        st = St({}, ())
        fs = []
        for nm, ty in zip(va["fields"], va["tys"]):
            if ty == "f64":
                x = eng.inp(nm if not nm.isdigit() else "x")
                if struct == FINNAME:
                    st.pc = st.pc + (valid(x),)
                fs.append(x)
            elif ty.endswith(FINNAME):
                x = eng.inp(nm)
                st.pc = st.pc + (valid(x),)
                fs.append(Agg(fin_uid(eng), (x,)))
            else:
                fs.append(Opq("tok", "%s: %s" % (nm, ty)))
        me = Agg(uid, fs)
        bs, bd = impl_of(eng, struct, "Serialize", "serialize"), impl_of(eng, struct, "Deserialize", "deserialize")
        ref = eng.alloc(st, me)
        eng.inlined |= {bs["path"], bd["path"]}
        for s, v in eng.run(st, bs, [ref, Opq("tok", "serializer")]):
            if v.tag != RES or v.var != 0:
                eng.oblige(s, bs["path"], "serialization succeeds", False)
                continue
            doc = v.f[0]
            if doc.tag == "doc:struct":
                names = [f.f[0].name if isinstance(f.f[0], Opq) else "?" for f in doc.f]
                eng.oblige(s, bs["path"], "every field is written exactly once under its own name",
                           sorted(names) == sorted(va["fields"]))
                for f in doc.f:
                    if isinstance(f.f[0], Opq) and f.f[0].name in va["fields"]:
                        eng.oblige(s, bs["path"], "field %s is written with its own value" % f.f[0].name,
                                   veq(f.f[1], fs[va["fields"].index(f.f[0].name)]))
            else:
                eng.oblige(s, bs["path"], "the single field is written", doc.tag == "doc:new" and veq(doc.f[0], fs[0]))
            back = eng.run(s, bd, [Agg("de", (doc,))])
            if not back:
                raise Unsupported("deserialize never returns")
            for s2, w in back:
                if w.tag != RES or w.var != 0:
                    eng.oblige(s2, bd["path"], "deserializing what was serialized succeeds", False)
                else:
                    eng.oblige(s2, bd["path"], "deserializing what was serialized yields an equal value", veq(w.f[0], me))
        nopanic(eng, bd)
    return go


def veq(a, b):
    """equality of values as a formula"""
    if z3.is_fp(a) and z3.is_fp(b):
        return same_bits(a, b)
    if isinstance(a, Agg) and isinstance(b, Agg):
        if a.tag != b.tag or a.var != b.var or len(a.f) != len(b.f):
            return z3.BoolVal(False)
        return z3.And([veq(x, y) for x, y in zip(a.f, b.f)] + [z3.BoolVal(True)])
    return z3.BoolVal(isinstance(a, Opq) and isinstance(b, Opq) and a == b)


def serde_param_gate(eng):
    """deserializing any f64 yields the parameter exactly when it is valid"""
    x = eng.inp("x")
    bd = impl_of(eng, FINNAME, "Deserialize", "deserialize")
    doc = Agg("doc:new", (x, Opq("ty", "f64")))
    n = 0
    for s, v in eng.run(St({}, ()), bd, [Agg("de", (doc,))]):
        n += 1
        expect_opt(eng, s, bd, v, valid(x), x, RES)
    if not n:
        raise Unsupported("deserialize never returns")
    nopanic(eng, bd)
