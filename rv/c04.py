"""C04 layout: offsets, alignment and sizes against the reference model and against ctypes; declared size == bytes moved."""
from __future__ import annotations

import ctypes

from . import gen, lib
from . import model as M
from .boot import cstruct
from .common import (MODES, BytesIO, Err, call, canon, count_features, load, mode_name, program, witness)

PID = "C04"
ANCHORS = ["types/structure.py", "cstruct.py", "types/base.py", "expression.py"]
RULE = ("A case is a generated definition of fixed-size members (or one with dynamic members, for the offsets before and the "
        "alignment after them), checked field by field against the layout model and, where C can declare it, against ctypes; "
        "then len/sizeof/bytes read/bytes written of every type inside it are observed.  Non-trivial: at least one "
        "structure's offsets were compared and its bytes were moved; distinct by definition, configuration.")
ASSUMPTIONS = ["ctypes as the platform C ABI (scalars, arrays, nested structures, unions; no bit-fields)",
               "documented alignments of the non-C widths: 24-bit on 4, 48-bit on 8, 128-bit on 16"]
REQUIRED = ["big", "empty", "offsets_compared", "ctypes_compared", "ctypes_aligned", "ctypes_packed", "sizeof_compared", "moved", "scalar_table",
            "feature:bits", "feature:union", "feature:aligned", "feature:ptr", "incremental"]

CT = {"int8": ctypes.c_int8, "uint8": ctypes.c_uint8, "int16": ctypes.c_int16, "uint16": ctypes.c_uint16,
      "int32": ctypes.c_int32, "uint32": ctypes.c_uint32, "int64": ctypes.c_int64, "uint64": ctypes.c_uint64,
      "float": ctypes.c_float, "double": ctypes.c_double, "char": ctypes.c_char}


def to_ctypes(t, cfg, cache):
    """The same declaration as a ctypes type, or None when C has no counterpart."""
    if isinstance(t, M.Sc):
        if t.name == "wchar":
            return ctypes.c_uint16
        if t.name == "float16":
            return ctypes.c_uint16
        return CT.get(t.name)
    if isinstance(t, M.En):
        return to_ctypes(t.base, cfg, cache)
    if isinstance(t, M.Pt):
        if cfg.ptr.name == "uint64":
            return ctypes.c_void_p
        return CT.get(cfg.ptr.name)
    if isinstance(t, M.Ar):
        if t.form != "n":
            return None
        e = to_ctypes(t.elem, cfg, cache)
        return None if e is None else e * max(0, t.count)
    if id(t) in cache:
        return cache[id(t)]
    fields = []
    for i, f in enumerate(t.fields):
        if f.bits:
            return None
        c = to_ctypes(f.t, cfg, cache)
        if c is None:
            return None
        fields.append((f.name or f"__anon{i}", c))
    ns = {"_fields_": fields}
    if not t.align:
        ns["_pack_"] = 1
    c = type(t.name or "anon", (ctypes.Union if t.union else ctypes.Structure,), ns)
    cache[id(t)] = c
    return c


def mixed(t):
    """A C compiler has one packing mode per structure; nested modes are fine, but a packed type has alignment 1 there."""
    modes = set()
    M.walk(t, lambda x, d: modes.add(x.align) if isinstance(x, M.St) else None)
    return len(modes) > 1


def compare(ctx, root, cfg, T, t, comp, path, cache):
    """Check one structure type and everything below it."""
    size, al, offs = M.layout(t, cfg)
    det = lambda **kw: witness(root, cfg, comp, at="/".join(path) or "root", **kw)  # noqa: E731
    ctx.check(T.size == size, "size", lambda: det(expected=size, got=T.size))
    ctx.check(T.alignment == al, "alignment", lambda: det(expected=al, got=T.alignment))
    ctx.check(T.dynamic == (size is None), "dynamic", lambda: det(expected=size is None, got=T.dynamic))
    r = call(len, T)
    if size is None:
        ctx.check(isinstance(r, Err) and r.name == "TypeError", "len-of-dynamic", lambda: det(got=repr(r)))
    else:
        ctx.check(r == size, "len", lambda: det(expected=size, got=repr(r)))
    ctx.check(len(T.__fields__) == len(t.fields), "field-count", lambda: det(expected=len(t.fields), got=len(T.__fields__)))
    for f, F, (off, first) in zip(t.fields, T.__fields__, offs):
        ctx.check(F.name == f.name, "field-name", lambda: det(expected=f.name, got=F.name))
        if not t.union:
            ctx.ev("offsets_compared")
            ctx.check(F.offset == off, "offset", lambda: det(field=f.name, expected=off, got=F.offset))
            if f.name is not None:
                g = T.fields.get(f.name)
                ctx.check(g is not None and g.offset == off, "fields-mapping-offset",
                          lambda: det(field=f.name, expected=off, got=repr(g)))
        else:
            ctx.check(not F.offset, "union-offset", lambda: det(field=f.name, got=F.offset))
        fa, fs = M.alignof(f.t, cfg), M.sizeof(f.t, cfg)
        ctx.check((F.type.alignment or 1) == fa, "field-alignment", lambda: det(field=f.name, expected=fa, got=F.type.alignment))
        ctx.check(F.type.size == fs, "field-size", lambda: det(field=f.name, expected=fs, got=F.type.size))
        x, X = f.t, F.type
        while isinstance(x, M.Ar):
            x, X = x.elem, X.type
        if isinstance(x, M.St):
            compare(ctx, root, cfg, X, x, comp, (*path, f.name or "<anonymous>"), cache)
    if size is not None and not mixed(t):
        c = to_ctypes(t, cfg, cache)
        if c is not None and t.fields:
            ctx.ev("ctypes_compared")
            ctx.ev("ctypes_aligned" if t.align else "ctypes_packed")
            ctx.check(ctypes.sizeof(c) == T.size, "ctypes-size", lambda: det(c=ctypes.sizeof(c), got=T.size))
            if t.align:
                ctx.check(ctypes.alignment(c) == T.alignment, "ctypes-alignment",
                          lambda: det(c=ctypes.alignment(c), got=T.alignment))
            for i, (f, F) in enumerate(zip(t.fields, T.__fields__)):
                o = getattr(c, f.name or f"__anon{i}").offset
                ctx.check((F.offset or 0) == o, "ctypes-offset", lambda: det(field=f.name, c=o, got=F.offset))


def moved(ctx, root, cfg, T, comp):
    """Bytes read == bytes written == declared size, for the structure and for every field type."""
    rng = ctx.rng
    size = M.sizeof(root, cfg)
    if size is None:
        return
    d = gen.gen_data(rng, root, cfg)
    if d is None:
        return
    data = d[0] + rng.randbytes(11)
    s = BytesIO(data)
    o = call(T, s)
    det = lambda **kw: witness(root, cfg, comp, data, **kw)  # noqa: E731
    if isinstance(o, Err):
        ctx.fail("parse-failed", det(raised=repr(o)))
        return
    ctx.ev("moved")
    ctx.check(s.tell() == size, "bytes-read", lambda: det(expected=size, got=s.tell()))
    b = call(o.dumps)
    ctx.check(not isinstance(b, Err) and len(b) == size, "bytes-written", lambda: det(expected=size, got=repr(b)))
    r = call(len, o)
    ctx.check(r == size, "len-of-instance", lambda: det(expected=size, got=repr(r)))
    z = call(lambda: T().dumps())
    ctx.check(not isinstance(z, Err) and len(z) == size, "bytes-written-default", lambda: det(expected=size, got=repr(z)))
    short = call(T, data[: size - 1]) if size else None
    if size and d[3].mask[size - 1 : size] != b"\0" and not root.union:
        ctx.check(isinstance(short, Err), "size-not-needed", lambda: det(size=size, parsed=repr(short)))
    for f, F in zip(root.fields, T.__fields__):
        if f.bits:
            continue
        n = M.sizeof(f.t, cfg)
        q = gen.gen_data(rng, f.t, cfg)
        if q is None:
            continue
        s = BytesIO(q[0] + b"\xAA" * 5)
        v = call(F.type, s)
        w = call(F.type.dumps, v) if not isinstance(v, Err) else v
        ctx.check(not isinstance(w, Err) and s.tell() == n == len(w), "field-type-bytes",
                  lambda: det(field=f.name, expected=n, read=s.tell(), wrote=repr(w)))


def sizeofs(ctx, root, cfg, cs, T, comp):
    """sizeof(T) in expressions, constants and array lengths."""
    from dissect.cstruct import Expression

    for t in M.deps(root):
        n = M.sizeof(t, cfg)
        if n is None:
            r = call(lambda: Expression(cs, f"sizeof({t.name})").evaluate())
            ctx.check(isinstance(r, Err), "sizeof-dynamic", lambda: witness(root, cfg, comp, type=t.name, got=repr(r)))
            continue
        for how, fn in (
            ("expression", lambda: Expression(cs, f"sizeof({t.name})").evaluate()),
            ("arithmetic", lambda: Expression(cs, f"2 * sizeof({t.name}) + 1").evaluate() // 2),
            ("len", lambda: len(cs.resolve(t.name))),
        ):
            r = call(fn)
            ctx.ev("sizeof_compared")
            ctx.check(r == n, "sizeof", lambda: witness(root, cfg, comp, type=t.name, how=how, expected=n, got=repr(r)))
    k = M.sizeof(root, cfg)
    if k is not None:
        r = call(cs.load, f"#define SZ_{root.name} sizeof({root.name})\n"
                          f"struct Q_{root.name} {{ uint8 a[sizeof({root.name})]; {root.name} b[2]; }};", compiled=comp)
        ctx.check(not isinstance(r, Err), "sizeof-load", lambda: witness(root, cfg, comp, raised=repr(r)))
        if not isinstance(r, Err):
            Q = getattr(cs, f"Q_{root.name}")
            ctx.check(getattr(cs, f"SZ_{root.name}") == k and len(Q) == 3 * k, "sizeof-constant", lambda: witness(
                root, cfg, comp, expected=k, constant=getattr(cs, f"SZ_{root.name}"), outer=len(Q)))


FIXED = {"dyn": 0.0, "leb": 0.0, "eof": 0.0, "exprs": False, "nullterm": False}
PROFILES = [
    {**FIXED}, {**FIXED, "align": True}, {**FIXED, "align": True, "nested": 0.45, "depth": 3, "mixed_align": 0.0},
    {**FIXED, "odd": False, "bits": 0.0, "mixed_align": 0.0}, {**FIXED, "odd": False, "bits": 0.0, "mixed_align": 0.0, "align": True,
                                                               "union": 0.35, "nested": 0.4, "depth": 3},
    {**FIXED, "mixed_align": 0.5, "nested": 0.4}, {"align": True, "dyn": 0.5, "array": 0.4}, {**FIXED, "union": 0.6, "ptr": 0.3},
    {**FIXED, "bits": 0.6, "align": True}, {**FIXED, "fields": (8, 20), "align": True},
]


def w_program(ctx, i):
    prof = PROFILES[i % len(PROFILES)]
    root, cfg = program(ctx, prof, consts=0.0, root_kw={"union": True} if ctx.rng.random() < 0.12 else {})
    comp = ctx.rng.random() < 0.5
    loaded = load(ctx, root, cfg, (comp,))
    if loaded is None:
        return
    cs, T = loaded[comp]
    count_features(ctx, root)
    ctx.key(M.program_text(root), cfg.endian, cfg.ptr.name, [x.align for x in M.deps(root) if isinstance(x, M.St)])
    compare(ctx, root, cfg, T, root, comp, (), {})
    moved(ctx, root, cfg, T, comp)
    sizeofs(ctx, root, cfg, cs, T, comp)
    ctx.sample(witness(root, cfg, layout=repr(M.layout(root, cfg))[:400]))


def w_incremental(ctx, i):
    """The same layout when the fields are added one by one through the API."""
    root, cfg = program(ctx, {**PROFILES[i % len(PROFILES)], "fields": (2, 9)}, consts=0.0, root_kw={"union": False})
    loaded = load(ctx, root, cfg, (False,))
    if loaded is None:
        return
    cs, T = loaded[False]
    r = call(cs.load, "struct INC { };", compiled=ctx.rng.random() < 0.5, align=bool(root.align))
    if isinstance(r, Err):
        ctx.fail("empty-structure-rejected", {"raised": repr(r)})
        return
    S = cs.INC
    for k, (f, F) in enumerate(zip(root.fields, T.__fields__)):
        x = call(S.add_field, f.name, F.type, bits=f.bits)
        if isinstance(x, Err):
            ctx.fail("add-field", witness(root, cfg, field=f.name, raised=repr(x)))
            return
        part = M.St("INC", root.fields[: k + 1], False, root.align)
        size, al, offs = M.layout(part, cfg)
        ctx.ev("incremental")
        ctx.check((S.size, S.alignment) == (size, al) and [G.offset for G in S.__fields__] == [o for o, _ in offs],
                  "incremental-layout", lambda: witness(root, cfg, after=k + 1, expected=repr((size, al, offs)),
                                                        got=repr((S.size, S.alignment, [G.offset for G in S.__fields__]))))


def w_scalars(ctx, i):
    """The type table: size and alignment of every built-in type and alias, alone, in arrays and in a structure."""
    names = sorted(M.SC) + sorted(M.ALIASES)
    if i >= len(names):
        return
    n = names[i]
    t = M.SC[M.ALIASES.get(n, n)]
    for ptr in ("uint8", "uint16", "uint32", "uint64"):
        cs = cstruct(pointer=ptr)
        T = call(cs.resolve, n)
        ctx.ev("scalar_table")
        ctx.key("scalar", n, ptr)
        if isinstance(T, Err):
            ctx.fail("unknown-type", {"type": n, "raised": repr(T)})
            return
        ctx.check(T.size == t.size, "scalar-size", {"type": n, "expected": t.size, "got": T.size})
        ctx.check((T.alignment or 1) == t.align, "scalar-alignment", {"type": n, "expected": t.align, "got": T.alignment})
        if t.size is None:
            continue
        ctx.check(len(T) == t.size, "scalar-len", {"type": n, "expected": t.size, "got": len(T)})
        ctx.check((T[3].size, T[3].alignment or 1) == (3 * t.size, t.align), "scalar-array",
                  {"type": n, "expected": (3 * t.size, t.align), "got": (T[3].size, T[3].alignment)})
        ctx.check(T[2][3].size == 6 * t.size, "scalar-array2", {"type": n, "got": T[2][3].size})
        for align in (False, True):
            r = call(cs.load, f"struct A{align} {{ uint8 a; {n} b; uint8 c; {n} *d; uint8 e; {n} f[2]; }};", align=align)
            if isinstance(r, Err):
                ctx.fail("scalar-struct", {"type": n, "raised": repr(r)})
                return
            cfg = M.Cfg("<", M.SC[ptr])
            u8 = M.SC["uint8"]
            m = M.St("A", [M.Fd("a", u8), M.Fd("b", t), M.Fd("c", u8), M.Fd("d", M.Pt(t)), M.Fd("e", u8),
                           M.Fd("f", M.Ar(t, "n", 2))], False, align)
            size, al, offs = M.layout(m, cfg)
            S = getattr(cs, f"A{align}")
            got = (S.size, S.alignment, [F.offset for F in S.__fields__])
            ctx.check(got == (size, al, [o for o, _ in offs]), "scalar-placement",
                      {"type": n, "align": align, "pointer": ptr, "expected": repr((size, al, offs)), "got": repr(got)})
            from dissect.cstruct import Expression

            r = call(lambda: Expression(cs, f"sizeof({n})").evaluate())
            ctx.check(r == t.size, "scalar-sizeof", {"type": n, "expected": t.size, "got": repr(r)})


def w_big(ctx, i):
    """The same where one dimension is big: long arrays and strings, hundreds of fields, deep nesting, big unions."""
    root, cfg = gen.big_program(ctx.rng, dynamic=ctx.rng.random() < 0.2)
    comp = ctx.rng.random() < 0.5
    loaded = load(ctx, root, cfg, (comp,))
    if loaded is None:
        return
    cs, T = loaded[comp]
    ctx.ev("big")
    ctx.key(M.program_text(root), cfg.endian, root.align)
    compare(ctx, root, cfg, T, root, comp, (), {})
    moved(ctx, root, cfg, T, comp)
    sizeofs(ctx, root, cfg, cs, T, comp)


def w_empty(ctx, i):
    """Structures and unions without fields: size 0, alignment 1, alone and among the members of others."""
    from dissect.cstruct import Expression, Field

    rng = ctx.rng
    for kind in ("struct", "union"):
        for align in (False, True):
            for how in ("load", "api"):
                cs = cstruct(endian=rng.choice("<>!=@"), pointer=rng.choice(("uint32", "uint64")))
                if how == "load":
                    r = call(cs.load, f"{kind} E {{ }};", align=align, compiled=rng.random() < 0.5)
                    E = r if isinstance(r, Err) else cs.E
                else:
                    E = call(getattr(cs, f"_make_{kind}"), "E", [], align=align)
                    if not isinstance(E, Err):
                        cs.add_type("E", E)
                w = lambda **kw: {"kind": kind, "align": align, "how": how, **kw}  # noqa: E731
                if isinstance(E, Err):
                    ctx.fail("empty-rejected", w(raised=repr(E)))
                    continue
                ctx.ev("empty")
                ctx.check((E.size, E.alignment, E.dynamic, len(E)) == (0, 1, False, 0), "empty-layout", lambda: w(got=repr((E.size, E.alignment, E.dynamic))))
                ctx.check(call(lambda: Expression(cs, "sizeof(E) + 3").evaluate()) == 3, "empty-sizeof", w)
                for T in (E, E[3]):
                    s = BytesIO(b"abc")
                    o = call(T, s)
                    b = call(T.dumps, o) if not isinstance(o, Err) else o
                    ctx.check(s.tell() == 0 and b == b"" and T.size == 0 and T.alignment in (1, None), "empty-moved", lambda: w(type=T.__name__, tell=s.tell(), dumped=repr(b), alignment=T.alignment))
                # among others
                names = rng.sample(sorted(M.SC), 3)
                if any(M.SC[n].size is None for n in names):
                    names = ["uint8", "uint32", "uint64"]
                k = rng.randrange(4)
                e = M.St("E", [], kind == "union", align)
                fds = [M.Fd(f"m{j}", M.SC[n]) for j, n in enumerate(names)]
                fds.insert(k, M.Fd("e", e if rng.random() < 0.6 else M.Ar(e, "n", 2)))
                outer_al = rng.random() < 0.7
                outer_union = rng.random() < 0.3
                cfg = M.Cfg("<", M.SC["uint64"])
                O = M.St("O", fds, outer_union, outer_al)
                size, al, offs = M.layout(O, cfg)
                if rng.random() < 0.5:
                    text = "".join(f"{'E' if f.name == 'e' else f.t.name} {f.name}{'[2]' if isinstance(f.t, M.Ar) else ''}; " for f in fds)
                    r = call(cs.load, f"{'union' if outer_union else 'struct'} O {{ {text} }};", align=outer_al)
                    P = r if isinstance(r, Err) else cs.O
                else:
                    text = "api"
                    P = call(getattr(cs, "_make_union" if outer_union else "_make_struct"), "O",
                             [Field(f.name, (E[2] if isinstance(f.t, M.Ar) else E) if f.name == "e" else cs.resolve(f.t.name)) for f in fds], align=outer_al)
                if isinstance(P, Err):
                    ctx.fail("empty-member", w(outer=text, raised=repr(P)))
                    continue
                got = (P.size, P.alignment, [F.offset or 0 for F in P.__fields__])
                want = (size, al, [0 if outer_union else o for o, _ in offs])
                ctx.check(got == want, "empty-member-layout", lambda: w(outer=text, fields=[(f.name, str(f.t)) for f in fds], outer_align=outer_al, union=outer_union,
                                                                        expected=repr(want), got=repr(got)))
                s = BytesIO(bytes(size + 7))
                o = call(P, s)
                b = call(P.dumps, o) if not isinstance(o, Err) else o
                ctx.check(not isinstance(b, Err) and s.tell() == size == len(b), "empty-member-moved", lambda: w(outer=text, size=size, tell=s.tell(), dumped=repr(b)))
                # an empty structure that gets fields afterwards
                r = call(E.add_field, "late", cs.uint32)
                ctx.check(not isinstance(r, Err) and (E.size, E.alignment) == (4, 4), "empty-extended", lambda: w(raised=repr(r), got=(E.size, E.alignment)))
    ctx.key("empty", i)


QUICK_FACTOR = 3
WORKLOADS = {
    "empty": (w_empty, 40, 600),
    "big": (w_big, 150, 3000),
    "scalars": (w_scalars, lambda: len(M.SC) + len(M.ALIASES), lambda: len(M.SC) + len(M.ALIASES)),
    "program": (w_program, 4000, 60000),
    "incremental": (w_incremental, 700, 8000),
}
EXHAUSTIVE = "workload scalars: every built-in type and alias x 4 pointer widths x packed/aligned"
