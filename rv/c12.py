"""C12 enums and flags: numbering, value preservation, equality and hashing against a model."""
from __future__ import annotations

import re

from . import gen, lib
from . import model as M
from .boot import cstruct
from .common import MODES, Err, call, mode_name

PID = "C12"
ANCHORS = ["types/enum.py", "types/flag.py"]
RULE = ("A case is an enum or flag declaration (value list with gaps, duplicates, expressions over earlier members and constants; every underlying "
        "integer type; named, anonymous, in both parsers and through the API) with underlying values: all 256 for one-byte types, members, "
        "neighbours, extremes and random ones otherwise, as scalars, arrays of every length form, struct fields, bit-fields and union members.  "
        "Non-trivial: at least one value parsed and judged; distinct by declaration, byte order and values.")
ASSUMPTIONS = ["numbering after a negative explicit flag value is not specified", "member names are ordinary identifiers that Python's enum allows"]
REQUIRED = ["members_numbered", "duplicates", "expressions", "values", "unknown_values", "flag_combinations", "arrays", "bitfields", "struct_fields",
            "union_members", "legacy", "anonymous", "api", "pairs", "cross_class", "default_type", "signed_negative", "leb_base", "exhaustive8", "aliased_base",
            "reparse_history", "incremental", "shadowed_constants"]

NAMES = ["A", "B", "C", "D", "E", "F", "G", "H", "RED", "Blue", "x1", "_u", "a_b", "structure", "enumeration", "N0", "EOFX", "u8x", "flags", "type_"]
CONSTS = [n for n in NAMES if n != "E"]


def expression(rng, known, consts, lo, hi, nonneg):
    """(text, value) over earlier members and constants, within [lo, hi]; None when no attempt fits."""
    pool = {**consts, **known}
    shadowed = [n for n in known if n in consts]
    for _ in range(12):
        k = rng.randrange(10)
        names = list(pool)
        a = rng.choice(names) if names else None
        if shadowed and rng.random() < 0.5:
            # a member that has the name of a constant: the member comes first
            a = rng.choice(shadowed)
        b = rng.choice(names) if names else None
        n = rng.randrange(1, 5)
        if a is None:
            text, v = (f"1 << {n}", 1 << n) if k < 5 else (f"{n} * 3", n * 3)
        elif k == 0:
            text, v = f"{a} + {n}", pool[a] + n
        elif k == 1:
            text, v = f"{a} | {b}", pool[a] | pool[b]
        elif k == 2:
            if not 0 <= n < 8 or abs(pool[a]) >> 200:
                continue
            text, v = f"({a} << {n})", pool[a] << n
        elif k == 3:
            text, v = f"{a}", pool[a]
        elif k == 4:
            text, v = f"{a} - {n}", pool[a] - n
        elif k == 5:
            text, v = f"-({a})", -pool[a]
        elif k == 6:
            text, v = f"{a} & {b}", pool[a] & pool[b]
        elif k == 7:
            text, v = f"({a} + {b}) * {n}", (pool[a] + pool[b]) * n
        elif k == 8:
            text, v = f"~{a}", ~pool[a]
        else:
            text, v = f"{a}^0x{n:x}", pool[a] ^ n
        if lo <= v <= hi and not (nonneg and v < 0):
            return text, v
    return None


def literal(rng, v):
    if v < 0:
        return f"-{literal(rng, -v)}" if rng.random() < 0.5 else str(v)
    return rng.choice((str(v), hex(v), f"0x{v:X}", f"0b{v:b}", str(v)))


def declaration(ctx, flag=None, base=None, consts=None, simple=False):
    """A random declaration: En with raw texts."""
    rng = ctx.rng
    flag = rng.random() < 0.45 if flag is None else flag
    base = base or rng.choice([M.SC[n] for n in gen.INTS + gen.STD_INTS] + [M.SC["uleb128"], M.SC["ileb128"]])
    nb = (base.size or 4) * 8
    lo = -(1 << (nb - 1)) if base.signed else 0
    hi = (1 << (nb - 1)) - 1 if base.signed else (1 << nb) - 1
    names = rng.sample(NAMES, rng.randint(1, 9))
    raw, members, known = [], [], {}
    nxt = 1 if flag else 0
    for i, nm in enumerate(names):
        k = rng.random()
        text, v = None, None
        auto_ok = nxt is not None and nxt <= hi
        if k < 0.45 and auto_ok:
            v = nxt
        elif k < 0.62:
            e = expression(rng, known, consts or {}, lo, hi, flag and rng.random() < 0.9)
            if e is not None:
                text, v = e
                ctx.ev("expressions")
                if any(n in (consts or {}) and n in re.findall(r"\w+", text) for n in known):
                    ctx.ev("shadowed_constants")
        elif k < 0.75 and known:
            v = rng.choice(list(known.values()))
            text = literal(rng, v)
            ctx.ev("duplicates")
        if v is None:
            v = rng.choice((0, 1, 2, rng.randint(0, min(hi, 20)), rng.randint(lo, hi), hi, hi - 1, 1 << rng.randrange(nb - 1), 7, max(lo, -1), lo))
            if flag and v < 0 and (not base.signed or rng.random() < 0.8):
                v = 3
            text = literal(rng, v)
        raw.append((nm, text))
        members.append((nm, v))
        known[nm] = v
        if flag:
            nxt = None if v < 0 else 1 << v.bit_length()
        else:
            nxt = v + 1
    return M.En("E", base, flag, members, raw)


def text_of(ctx, e, name="E", base_text=None, style=None):
    rng = ctx.rng
    kw = "flag" if e.flag else "enum"
    head = f"{kw} {name}" if name else kw
    if base_text is not None:
        head += f" : {base_text}"
    style = rng.randrange(3) if style is None else style
    items = [f"{n} = {x}" if x is not None else n for n, x in e.raw]
    if style == 0:
        body = ",\n    ".join(items)
        return f"{head} {{\n    {body}\n}};\n"
    if style == 1:
        return f"{head} {{ {', '.join(items)} }};\n"
    body = ",\n    ".join(items)
    return f"{head} {{\n    {body},\n}};\n"


def base_name(ctx, base):
    rng = ctx.rng
    al = [a for a, t in M.ALIASES.items() if t == base.name]
    if al and rng.random() < 0.4:
        ctx.ev("aliased_base")
        return rng.choice(al)
    return base.name


def values_of(ctx, e):
    rng = ctx.rng
    base = e.base
    if base.size == 1:
        ctx.ev("exhaustive8")
        return list(range(-128, 128)) if base.signed else list(range(256))
    nb = (base.size or 5) * 8
    lo = -(1 << (nb - 1)) if base.signed else 0
    hi = (1 << (nb - 1)) - 1 if base.signed else (1 << nb) - 1
    out = {0, 1, lo, hi, hi - 1, lo + 1, 1 << (nb - 2)}
    for _, v in e.members:
        out |= {v - 1, v, v + 1, ~v, v ^ 1, -v}
    ms = [v for _, v in e.members]
    for _ in range(8):
        x = 0
        for v in rng.sample(ms, rng.randint(1, len(ms))):
            x |= v
        out.add(x)
        out.add(rng.randint(lo, hi))
    out = [v for v in out if lo <= v <= hi]
    rng.shuffle(out)
    return out


def enc(base, v, cfg):
    return M.encode(base, v, cfg)[0]


def det_of(text, cfg, **kw):
    return {"definition": text, "endian": cfg.endian, **kw}


def check_members(ctx, E, e, text, cfg, where):
    want = list(e.members)
    got = call(lambda: [(n, int(m)) for n, m in E.__members__.items()])
    ctx.ev("members_numbered", len(want))
    d = lambda **kw: det_of(text, cfg, where=where, **kw)  # noqa: E731
    ctx.check(got == want, "numbering", lambda: d(expected=repr(want), got=repr(got)))
    for n, v in want:
        m = call(getattr, E, n)
        ok = not isinstance(m, Err) and m.value == v and int(m) == v and m == v and type(m) is E and call(lambda: E[n].value) == v
        ctx.check(ok, "member", lambda: d(member=n, expected=v, got=repr(m)))
        if ok:
            ctx.check(m.name == n, "member-name", lambda: d(member=n, got=repr(m.name)))


def judge(ctx, E, obj, v, d):
    """One object that came from underlying value v."""
    ok = (not isinstance(obj, Err) and type(obj) is E and isinstance(obj, int) and int(obj) == v and obj.value == v and int.__eq__(int(obj), v)
          and obj == v and v == obj and not (obj != v) and not (obj == v + 1) and obj != v - 1 and obj.__index__() == v)
    return ctx.check(ok, "value", lambda: d(expected=v, got=repr(obj), cls=type(obj).__name__, value=repr(getattr(obj, "value", None))))


def w_values(ctx, i):
    """Declarations, all interesting underlying values as scalars and dumps."""
    rng = ctx.rng
    consts = {"K1": rng.randrange(8), "K2": rng.randrange(1, 200)} if rng.random() < 0.4 else {}
    how = rng.choice(("token", "token", "token", "legacy", "api", "anonymous"))
    if consts and how != "anonymous" and rng.random() < 0.5:
        consts.update((n, rng.randrange(1, 60)) for n in rng.sample(CONSTS, 3))
    base = None
    if i % 4 == 0:
        base = M.SC[rng.choice(("uint8", "int8"))]
    e = declaration(ctx, base=base, consts=consts)
    cfg = M.Cfg(rng.choice("<>!=@"))
    bt = base_name(ctx, e.base)
    if e.base.name == "uint32" and rng.random() < 0.7:
        bt = None
        ctx.ev("default_type")
    pre = "".join(f"#define {k} {v}\n" for k, v in consts.items())
    text = pre + text_of(ctx, e, "E" if how != "anonymous" else "", bt)
    cs = cstruct(endian=cfg.endian)
    d = lambda **kw: det_of(text, cfg, how=how, **kw)  # noqa: E731
    if how == "legacy":
        if bt is not None and " " in bt:
            how = "token"
    if how == "api":
        fn = cs._make_flag if e.flag else cs._make_enum
        E = call(fn, "E", cs.resolve(e.base.name), dict(e.members))
        ctx.ev("api")
    elif how == "anonymous":
        r = call(cs.load, text)
        if isinstance(r, Err):
            ctx.fail("definition-rejected", d(raised=repr(r)))
            return
        got = [(n, int(cs.consts[n])) for n, _ in e.members if n in cs.consts]
        ctx.ev("anonymous")
        ctx.check(got == e.members, "anonymous-constants", lambda: d(expected=repr(e.members), got=repr(got)))
        E = type(cs.consts[e.members[0][0]])
        check_members(ctx, E, e, text, cfg, how)
    else:
        r = call(cs.load, text, **({"deftype": cstruct.DEF_LEGACY} if how == "legacy" else {}))
        if isinstance(r, Err):
            ctx.fail("definition-rejected", d(raised=repr(r)))
            return
        if how == "legacy":
            ctx.ev("legacy")
        E = call(cs.resolve, "E")
    if isinstance(E, Err):
        ctx.fail("definition-rejected", d(raised=repr(E)))
        return
    check_members(ctx, E, e, text, cfg, how)
    if e.base.size is not None:
        ctx.check(len(E) == e.base.size and E.type is cs.resolve(e.base.name), "underlying-type", lambda: d(got=repr(E.type)))
    else:
        ctx.ev("leb_base")
    declared = {}
    for n, v in e.members:
        declared.setdefault(v, []).append(n)
    vals = values_of(ctx, e)
    first = {}
    for rnd in range(2):
        rng.shuffle(vals)
        for v in vals:
            b = enc(e.base, v, cfg)
            o = call(E, b)
            dd = lambda **kw: d(input=b, underlying=v, round=rnd, **kw)  # noqa: E731
            ctx.ev("values")
            if v < 0:
                ctx.ev("signed_negative")
            if not judge(ctx, E, o, v, dd):
                continue
            if v in declared:
                ctx.check(o.name in declared[v], "named", lambda: dd(got=repr(o.name), expected=repr(declared[v])))
                for n in declared[v]:
                    m = getattr(E, n)
                    ctx.check(o == m and m == o and hash(o) == hash(m) and not o != m, "equals-member", lambda: dd(member=n))
            else:
                ctx.ev("flag_combinations" if e.flag else "unknown_values")
                if not e.flag:
                    ctx.check(o.name is None, "unknown-has-name", lambda: dd(got=repr(o.name)))
            w = call(o.dumps)
            ctx.check(w == b, "dump", lambda: dd(expected=b, got=repr(w)))
            w = call(E.dumps, o)
            ctx.check(w == b, "class-dump", lambda: dd(expected=b, got=repr(w)))
            if not (e.flag and v < 0 and not e.base.signed):
                o2 = call(E, v)
                ctx.check(not isinstance(o2, Err) and o2 == o and o2.value == v and hash(o2) == hash(o), "call-with-integer", lambda: dd(got=repr(o2)))
            ctx.check(not isinstance(call(repr, o), Err) and not isinstance(call(str, o), Err), "repr", lambda: dd(got=repr(call(repr, o))))
            if v in first:
                ctx.ev("reparse_history")
                p = first[v]
                ctx.check(p == o and hash(p) == hash(o) and p in {o} and {o: 1}.get(p) == 1, "reparse-equal", lambda: dd(got=repr(o), before=repr(p)))
            else:
                first[v] = o
    # every pair of same-class objects is equal exactly when the values are
    objs = list(first.items())
    for _ in range(60):
        (a, x), (b, y) = rng.choice(objs), rng.choice(objs)
        ctx.ev("pairs")
        ctx.check((x == y) == (a == b) and (x != y) == (a != b) and (a != b or hash(x) == hash(y)), "pair-equality", lambda: d(a=a, b=b))
    # and never equal to one of another class, loaded from the same text or other kind
    others = []
    cs2 = cstruct(endian=cfg.endian)
    r = call(cs2.load, text if how != "anonymous" else pre + text_of(ctx, e, "E", bt))
    if not isinstance(r, Err):
        others.append(cs2.E)
    others.append(cs._make_enum("E", cs.resolve(e.base.name), dict(e.members)))
    others.append(cs._make_flag("E", cs.resolve(e.base.name), dict(e.members)))
    for O in others:
        for v in rng.sample(vals, min(len(vals), 12)):
            b = enc(e.base, v, cfg)
            y = call(O, b)
            if isinstance(y, Err):
                ctx.fail("value", d(raised=repr(y), underlying=v))
                continue
            x = first[v]
            ctx.ev("cross_class")
            same_kind = issubclass(O, cstruct_enum(E)) or issubclass(E, cstruct_enum(O))
            if same_kind:
                ctx.check(not (x == y) and x != y and not (y == x) and y != x, "cross-class-equal", lambda: d(underlying=v, other=O.__bases__[0].__name__))
            else:
                # an enum and a flag are also different types
                ctx.check(not (x == y) and x != y and not (y == x) and y != x, "cross-kind-equal", lambda: d(underlying=v, other=O.__bases__[0].__name__))
    ctx.key("values", text, cfg.endian, how)
    ctx.sample(d(values=vals[:10]))


def cstruct_enum(E):
    return E.__mro__[1]


def w_places(ctx, i):
    """The same declarations as array elements, struct fields, bit-fields and union members."""
    rng = ctx.rng
    bases = [M.SC[n] for n in gen.INTS]
    e = declaration(ctx, base=rng.choice(bases))
    f = declaration(ctx, base=e.base if rng.random() < 0.5 else rng.choice(bases))
    f.name = "G"
    f.members = [(f"g{n}", v) for n, v in f.members]
    cfg = M.Cfg(rng.choice("<>!=@"))
    # literal values only, so that both can be rendered
    for x in (e, f):
        x.raw = [(n, literal(rng, v)) for n, v in x.members]
    nb = e.base.size * 8
    align = rng.random() < 0.4
    w1 = rng.randint(1, nb)
    w2 = rng.randint(1, nb - w1) if nb - w1 else None
    fs = [M.Fd("n", M.SC["uint8"]), M.Fd("one", e), M.Fd("fix", M.Ar(e, "n", rng.randint(0, 4))),
          M.Fd("two", M.Ar(M.Ar(e, "n", 2), "n", rng.randint(1, 2))),
          M.Fd("nul", M.Ar(e, "0")), M.Fd("ex", M.Ar(e, "e", M.Ex("n & 3", lambda x: x["n"] & 3, ("n",)))), M.Fd("g", f),
          M.Fd("b1", e, w1)]
    if w2:
        fs.append(M.Fd("b2", e if rng.random() < 0.6 else e.base, w2))
    fs.append(M.Fd("gb", f, rng.randint(1, f.base.size * 8)))
    fs.append(M.Fd("u", M.St(None, [M.Fd("ua", e), M.Fd("ub", M.Ar(M.SC["uint8"], "n", e.base.size)), M.Fd("uc", M.Ar(e, "n", 2))], True, align, False)))
    fs.append(M.Fd("tail", M.Ar(e, "eof")))
    rng.shuffle(fs)
    fs.sort(key=lambda x: x.name == "tail")
    # the length field before its array, bit-fields of one unit together
    ni = next(k for k, x in enumerate(fs) if x.name == "n")
    fs.insert(0, fs.pop(ni))
    root = M.St("S", fs, False, align)
    try:
        M.layout(root, cfg)
    except M.OutOfDomain:
        root.fields = [x for x in fs if x.name != "b2"]
        try:
            M.layout(root, cfg)
        except M.OutOfDomain:
            return
    text = M.enum_text(e) + "\n" + M.enum_text(f) + "\n" + M.struct_text(root) + ";\n"
    for comp in MODES:
        cs = cstruct(endian=cfg.endian)
        r = call(cs.load, text, compiled=comp, align=align)
        d = lambda **kw: det_of(text, cfg, mode=mode_name(comp), align=align, **kw)  # noqa: E731
        if isinstance(r, Err):
            ctx.fail("definition-rejected", d(raised=repr(r)))
            return
        E, G, S = cs.E, cs.G, cs.S
        for rnd in range(3):
            g = gen.gen_data(rng, root, cfg)
            if g is None:
                return
            data, v, end, q = g
            o = call(S, data)
            if isinstance(o, Err):
                ctx.fail("parse", d(input=data, raised=repr(o)))
                return

            def see(cls, obj, val, where):
                judge(ctx, cls, obj, val, lambda **kw: d(input=data, where=where, **kw))

            see(E, o.one, v["one"], "field")
            see(G, o.g, v["g"], "field")
            ctx.ev("struct_fields", 2)
            for nm in ("fix", "nul", "ex", "tail"):
                arr = getattr(o, nm)
                ctx.check(len(arr) == len(v[nm]), "array-length", lambda: d(input=data, where=nm, expected=len(v[nm]), got=len(arr)))
                for k, (x, y) in enumerate(zip(arr, v[nm])):
                    see(E, x, y, f"{nm}[{k}]")
                    ctx.ev("arrays")
            for x, y in zip(o.two, v["two"]):
                for x2, y2 in zip(x, y):
                    see(E, x2, y2, "two")
            see(E, o.u.ua, v["u"]["ua"], "union")
            for x, y in zip(o.u.uc, v["u"]["uc"]):
                see(E, x, y, "union array")
            ctx.ev("union_members")
            # a bit-field holds the bits, whatever the sign of the underlying type
            see(E, o.b1, v["b1"], "bit-field")
            see(G, o.gb, v["gb"], "bit-field")
            ctx.ev("bitfields", 2)
            if any(x.name == "b2" for x in root.fields):
                x = next(x for x in root.fields if x.name == "b2")
                if x.t is e:
                    see(E, o.b2, v["b2"], "bit-field")
                else:
                    ctx.check(o.b2 == v["b2"], "value", lambda: d(input=data, where="b2", expected=v["b2"], got=repr(o.b2)))
            mask = bytes(q.mask[:end]) + bytes(max(0, end - len(q.mask)))
            want = bytes(x & m for x, m in zip(data[:end], mask))
            w = call(o.dumps)
            ctx.check(w == want, "dump", lambda: d(input=data, expected=want, got=repr(w)))
            o2 = call(S, data)
            ctx.check(o == o2, "reparse-equal", lambda: d(input=data))
            if not any(isinstance(getattr(o, n), list) for n in ("fix",)):
                ctx.check(hash(o) == hash(o2), "reparse-hash", lambda: d(input=data))
            # assign members and dump them
            for n, val in e.members:
                o.one = getattr(E, n)
                o.fix = [getattr(E, n)] * len(v["fix"])
                w = call(o.dumps)
                cur = {**v, "one": val, "fix": [val] * len(v["fix"])}
                x, _ = M.encode(root, cur, cfg)
                if len(cur["tail"]) == len(v["tail"]):
                    ctx.check(w == x, "assign-dump", lambda: d(input=data, member=n, expected=x, got=repr(w)))
        # arrays of the type itself
        vals = values_of(ctx, e)
        rng.shuffle(vals)
        vals = vals[:20]
        b = b"".join(enc(e.base, x, cfg) for x in vals)
        arr = call(E[len(vals)], b)
        if isinstance(arr, Err):
            ctx.fail("parse", d(input=b, raised=repr(arr)))
            return
        for x, y in zip(arr, vals):
            judge(ctx, E, x, y, d)
        ctx.check(arr.dumps() == b, "array-dump", lambda: d(got=arr.dumps(), expected=b))
        nz = [x for x in vals if x]
        b = b"".join(enc(e.base, x, cfg) for x in [*nz, 0])
        arr = call(E[None], b + b"\x01" * e.base.size)
        ok = not isinstance(arr, Err) and [int(x) for x in arr] == nz and all(type(x) is E for x in arr) and arr.dumps() == b
        ctx.check(ok, "null-array", lambda: d(input=b, got=repr(arr)))
        ctx.ev("arrays", 2)
        dflt = call(lambda: S().one)
        if not isinstance(dflt, Err):
            judge(ctx, E, dflt, 0, d)
        dflt = call(E)
        judge(ctx, E, dflt, 0, d)
    ctx.key("places", text, cfg.endian)


def w_numbering(ctx, i):
    """Numbering only: long lists of automatic and explicit members, several enums per load, enums referring to earlier enums' constants."""
    rng = ctx.rng
    n = rng.randint(1, 4)
    consts = {"K1": rng.randrange(1, 9)}
    if rng.random() < 0.4:
        consts.update((n, rng.randrange(1, 60)) for n in rng.sample(CONSTS, rng.randint(1, 6)))
    parts, es = [f"#define {name} {value}\n" for name, value in consts.items()], []
    legacy = rng.random() < 0.35
    for k in range(n):
        flag = rng.random() < 0.5
        base = M.SC[rng.choice(("uint64", "int64", "uint128", "uint32", "uint16"))]
        e = declaration(ctx, flag, base, consts)
        # a long automatic tail
        tail = rng.randrange(0, 12)
        mem = list(e.members)
        raw = list(e.raw)
        hi = (1 << (base.size * 8 - (1 if base.signed else 0))) - 1
        for j in range(tail):
            v = mem[-1][1]
            if flag and v < 0:
                break
            nv = 1 << v.bit_length() if flag else v + 1
            if nv > hi:
                break
            raw.append((f"T{j}", None))
            mem.append((f"T{j}", nv))
        e = M.En(f"E{k}", base, flag, mem, raw)
        es.append(e)
        parts.append(text_of(ctx, e, f"E{k}", base.name))
    text = "".join(parts)
    cfg = M.Cfg("<")
    cs = cstruct()
    r = call(cs.load, text, **({"deftype": cstruct.DEF_LEGACY} if legacy else {}))
    if legacy:
        ctx.ev("legacy")
    if isinstance(r, Err):
        ctx.fail("definition-rejected", det_of(text, cfg, legacy=legacy, raised=repr(r)))
        return
    for e in es:
        check_members(ctx, cs.resolve(e.name), e, text, cfg, "legacy" if legacy else "token")
    ctx.key("numbering", text, legacy)


def w_incremental(ctx, i):
    """Values parsed in different orders, mixed with member arithmetic, through several readers of the same class."""
    rng = ctx.rng
    e = declaration(ctx, flag=rng.random() < 0.7, base=M.SC[rng.choice(("uint8", "int8", "uint16", "int16", "uint32"))])
    cfg = M.Cfg(rng.choice("<>!=@"))
    for x in (e,):
        x.raw = [(n, literal(rng, v)) for n, v in x.members]
    text = M.enum_text(e) + "\nstruct S { E a; E b[2]; };\n"
    cs = cstruct(endian=cfg.endian)
    r = call(cs.load, text)
    if isinstance(r, Err):
        ctx.fail("definition-rejected", det_of(text, cfg, raised=repr(r)))
        return
    E, S = cs.E, cs.S
    d = lambda **kw: det_of(text, cfg, **kw)  # noqa: E731
    vals = values_of(ctx, e)
    seen = {}
    lo = -(1 << (e.base.size * 8 - 1)) if e.base.signed else 0
    hi = (1 << (e.base.size * 8 - (1 if e.base.signed else 0))) - 1
    script = []
    for step in range(60):
        k = rng.randrange(7)
        v = rng.choice(vals)
        if k == 0:
            o = call(E, enc(e.base, v, cfg))
        elif k == 1:
            o = call(lambda: S(enc(e.base, v, cfg) * 3).b[1])
        elif k == 2:
            if e.flag and v < 0 and not e.base.signed:
                continue
            o = call(E, v)
        elif k == 3 and e.flag:
            # combine two members, as users of flags do
            (n1, v1), (n2, v2) = rng.choice(e.members), rng.choice(e.members)
            if v1 < 0 or v2 < 0:
                continue
            v = v1 | v2 if rng.random() < 0.6 else v1 & v2
            o = call(lambda: getattr(E, n1) | getattr(E, n2)) if v == v1 | v2 else call(lambda: getattr(E, n1) & getattr(E, n2))
        elif k == 4:
            n, v = rng.choice(e.members)
            o = call(E.__getitem__, n)
        elif k == 5:
            o = call(lambda: E[1](enc(e.base, v, cfg))[0])
        else:
            x = S(a=E(enc(e.base, v, cfg)))
            o = call(lambda: S(x.dumps()).a)
        script.append((k, v))
        ctx.ev("incremental")
        if not lo <= v <= hi:
            continue
        if not judge(ctx, E, o, v, lambda **kw: d(history=script, **kw)):
            return
        ctx.check(call(o.dumps) == enc(e.base, v, cfg), "dump", lambda: d(history=script))
        for p in seen.get(v, []):
            ctx.check(p == o and o == p and hash(p) == hash(o), "history-equal", lambda: d(history=script, a=repr(p), b=repr(o)))
        seen.setdefault(v, []).append(o)
        for v2 in list(seen)[:6]:
            if v2 != v:
                ctx.check(seen[v2][0] != o and seen[v2][0].value == v2, "history-distinct", lambda: d(history=script))
    ctx.key("incremental", text, cfg.endian, repr(script))


QUICK_FACTOR = 3
WORKLOADS = {
    "values": (w_values, 2000, 30000),
    "places": (w_places, 1000, 15000),
    "numbering": (w_numbering, 4000, 40000),
    "incremental": (w_incremental, 1200, 15000),
}
EXHAUSTIVE = "every declaration over a one-byte type is judged for all 256 underlying values"
