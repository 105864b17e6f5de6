"""Inputs suggested by the constants of functions whose proof did not go through: where a changed
function tells one range of degrees or parameters from another, the concrete runs look at both sides."""
import math, struct

WRAP = {"u8": 8, "i8": 7, "u16": 16, "i16": 15, "u32": 32, "i32": 31, "f32": 24}


def walk(x, f):
    if isinstance(x, dict):
        f(x)
        for v in x.values():
            walk(v, f)
    elif isinstance(x, list):
        for v in x:
            walk(v, f)


def family(d, roots):
    """bodies of the functions in roots, their closures and the crate's functions they mention"""
    by_path, by_id = {}, {}
    for b in d["bodies"]:
        by_path.setdefault(b["path"], []).append(b)
        by_id[b["id"]] = b
    out, todo = {}, [b for r in roots for b in by_path.get(r, [])]
    while todo:
        b = todo.pop()
        if b["id"] in out:
            continue
        out[b["id"]] = b
        todo += [c for c in d["bodies"] if c.get("parent") == b["id"] or c["path"].startswith(b["path"] + "::{")]

        def see(x):
            f = x.get("fn")
            if isinstance(f, dict):
                for g in (f, f.get("res") or {}):
                    if g.get("id") in by_id:
                        todo.append(by_id[g["id"]])
            for k in ("id", "closure"):
                if isinstance(x.get(k), str) and x[k] in by_id:
                    todo.append(by_id[x[k]])
        walk(b.get("body"), see)
        walk(b.get("promoted"), see)
    return list(out.values())


def constants(d, bodies):
    """(integers, floats, narrow types) mentioned"""
    ints, floats, narrow = {}, {}, set()
    ty = lambda i: d["types"][i].get("s", "") if isinstance(d["types"][i], dict) else str(d["types"][i])
    for b in bodies:
        def see(x):
            k = x.get("k")
            if isinstance(k, dict) and isinstance(k.get("v"), dict):
                v = k["v"]
                if "n" in v:
                    try:
                        ints[int(v["n"])] = ints.get(int(v["n"]), 0) + 1
                    except (TypeError, ValueError):
                        pass
                if "f" in v:
                    try:
                        f = struct.unpack(">d", bytes.fromhex(str(v["f"]).replace("0x", "").rjust(16, "0")))[0]
                        floats[f] = floats.get(f, 0) + 1
                    except (ValueError, struct.error):
                        pass
            if "cast" in x and "ty" in x:
                try:
                    t = ty(x["ty"])
                except (IndexError, TypeError):
                    t = ""
                if t in WRAP:
                    narrow.add(t)
            f = x.get("fn")
            if isinstance(f, dict) and any(s in str(f.get("path")) for s in ("wrapping_", "overflowing_", "unchecked_")):
                narrow.add("u32")
        walk(b.get("body"), see)
        walk(b.get("promoted"), see)
    return ints, floats, narrow


def degrees(ints, floats, narrow):
    """degrees around the constants, the likeliest first"""
    first, rest = [], []
    for t in sorted(narrow):
        w = 2 ** WRAP[t]
        first += [w + 2, w + 1, w // 2 + 2] + ([2 * w + 6] if t != "f32" else [w + 4])
    cs = set()
    for c in ints:
        if 1 < abs(c) < 2 ** 33:
            cs.add(abs(c))
    for f in floats:
        if math.isfinite(f) and f != 0:
            a = abs(f)
            if 1.5 < a < 2 ** 33:
                cs.add(int(a))
                rest += [int(a * a / 2) + 20, int(a * a) + 20, int(a / 4) + 5]
            if 1e-9 < a < 0.999:
                first += [math.ceil(1 / a) + 1, math.ceil(math.pi / a) + 1]
                rest += [math.ceil(2 / a) + 1, math.ceil(2 * math.pi / a) + 1, math.ceil(1 / math.sqrt(a)) + 1,
                         math.ceil(math.pi / math.sqrt(a)) + 1]
    for c in sorted(cs):
        first += [c + 1, c, c - 1, c + 2]
        rest += [2 * c + 1, 2 * c, 2 * c - 1, 2 * c + 2, c // 2, c // 2 + 1]
    out = []
    for n in first + rest:
        if 1 <= n < 2 ** 33 and n not in out:
            out.append(n)
    return out


def reals(ints, floats):
    """parameter values around the constants"""
    out = []
    for f in list(floats) + [float(i) for i in ints if abs(i) < 10 ** 9]:
        if math.isfinite(f):
            for g in (f, -f):
                for v in (g, g * (1 + 1e-7), g * (1 - 1e-7), g - 1, g + 1, 1 / g if g else 0.0, g / 2, g + 0.1, g - 0.1):
                    if v not in out:
                        out.append(v)
    return out
