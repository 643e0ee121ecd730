"""C03 the compiled reader is observationally equivalent to the interpreted one: lock-step observation of both."""
from __future__ import annotations

from . import gen, lib
from . import model as M
from .boot import cstruct
from .common import (MODES, dynunion_program, BytesIO, Err, call, canon, count_features, ends_with_eof, load, mode_name, program, witness)

PID = "C03"
ANCHORS = ["compiler.py", "types/structure.py", "parser.py"]
RULE = ("A case is a generated definition loaded twice, compiled and interpreted, and run in lock step on complete, padded, "
        "shortened (every cut point of small inputs), corrupted and repeated inputs at several stream positions; compared: values, "
        "recorded sizes of fields that occupy bytes, consumed bytes, layout, errors.  Non-trivial: the compiled class really "
        "carries a generated reader and both readers ran; distinct by definition, configuration and input.")
ASSUMPTIONS = ["on shortened input one reader may raise where the other returns a value; two values must agree",
               "the reference model is used as a third opinion on complete inputs"]
REQUIRED = ["big", "huge", "namesakes", "dynamic_unions", "lockstep_complete", "lockstep_cut", "compiled_reader_installed", "fallback_used", "offset_fields", "position_runs",
            "feature:bits", "feature:arre", "feature:aligned", "endian_switched"]


def observe(t, T, data, pos=0, pre=b""):
    s = BytesIO(pre + data)
    s.seek(len(pre))
    o = call(T, s)
    if isinstance(o, Err):
        return ("raise", o.name, o)
    c = canon(t, o)
    sizes = {}
    raw = getattr(o, "_sizes", None)
    for f, F in zip(t.fields, T.__fields__):
        if f.bits or raw is None:
            continue
        n = raw.get(F._name, 0)
        if n:
            sizes[f.name if f.name is not None else f"anonymous {F.offset}"] = n
    return ("value", c, s.tell() - len(pre), sizes, o)


def layout(T):
    return (T.size, T.alignment, T.dynamic,
            [(f.name, f.offset, f.alignment, f.bits, f.type.size) for f in T.__fields__])


def lockstep(ctx, root, cfg, TI, TC, data, kind, pre=b""):
    a, b = observe(root, TI, data, pre=pre), observe(root, TC, data, pre=pre)
    ctx.ev("lockstep_" + kind)
    ctx.key(M.program_text(root, cfg.consts), cfg.endian, cfg.ptr.name, data, len(pre))
    det = lambda: witness(root, cfg, None, data, kind=kind, position=len(pre), interpreted=repr(a[:4]), compiled=repr(b[:4]))  # noqa: E731
    if a[0] == "value" and b[0] == "value":
        ctx.check(a[1] == b[1], "values-differ", det)
        ctx.check(a[2] == b[2], "consumed-differs", det)
        ctx.check(a[3] == b[3], "sizes-differ", det)
    elif kind in ("complete", "corrupt"):
        ctx.check(a[0] == b[0], "one-reader-fails", det)
    else:
        ctx.ev("cut_both_raise" if a[0] == b[0] else "cut_one_raises")
    return a, b


def check_layout(ctx, root, cfg, TI, TC):
    li, lc = layout(TI), layout(TC)
    ctx.check(li == lc, "layout-differs", lambda: witness(root, cfg, interpreted=repr(li), compiled=repr(lc)))


def drive(ctx, root, cfg, loaded, n=2):
    rng = ctx.rng
    TI, TC = loaded[False][1], loaded[True][1]
    if getattr(TC, "__compiled__", False):
        ctx.ev("compiled_reader_installed")
    else:
        ctx.ev("compiled_reader_not_installed")
    check_layout(ctx, root, cfg, TI, TC)
    count_features(ctx, root)
    for k in range(n):
        d = gen.gen_data(rng, root, cfg)
        if d is None:
            continue
        data, v, e, q = d
        tail = b"" if ends_with_eof(root) else rng.choice((b"", rng.randbytes(6)))
        pre = rng.choice((b"", b"", rng.randbytes(16), rng.randbytes(3) if not any_aligned(root) else rng.randbytes(32)))
        if pre:
            ctx.ev("position_runs")
        a, b = lockstep(ctx, root, cfg, TI, TC, data + tail, "complete", pre)
        for who, r in (("interpreted", a), ("compiled", b)):
            ctx.check(r[0] == "value" and r[1] == v and r[2] == e, "differs-from-model", lambda: witness(
                root, cfg, None, data, reader=who, expected=repr(v), end=e, observed=repr(r[:4])))
        # shortened inputs: every cut point of small inputs, a sample of larger ones
        cuts = range(len(data)) if len(data) <= 24 else sorted(rng.sample(range(len(data)), 16))
        for c in cuts:
            lockstep(ctx, root, cfg, TI, TC, data[:c], "cut")
        # corrupted inputs
        for _ in range(2):
            x = bytearray(data + tail)
            for _ in range(rng.randrange(1, 4)):
                if x:
                    x[rng.randrange(len(x))] ^= 1 << rng.randrange(8)
            p = M.Parser(cfg, x)
            try:
                p.parse(root, 0)
            except (M.Short, M.OutOfDomain):
                continue
            if not p.noncanon or p.noncanon == "leb":
                lockstep(ctx, root, cfg, TI, TC, bytes(x), "corrupt")
        if k == 0:
            ctx.sample(witness(root, cfg, data=data, value=repr(v)[:300]))
    # the byte order may change after the readers were generated
    if rng.random() < 0.3:
        old = cfg.endian
        new = rng.choice([x for x in "<>!=@" if x != old])
        cfg.endian = new
        loaded[False][0].endian = loaded[True][0].endian = new
        d = gen.gen_data(rng, root, cfg)
        if d is not None:
            ctx.ev("endian_switched")
            a, b = lockstep(ctx, root, cfg, TI, TC, d[0], "complete")
            ctx.check(a[0] == "value" and a[1] == d[1], "differs-from-model", lambda: witness(
                root, cfg, None, d[0], switched_from=old, expected=repr(d[1]), observed=repr(a[:4])))


def any_aligned(t):
    r = []
    M.walk(t, lambda x, d: r.append(1) if isinstance(x, M.St) and x.align else None)
    return bool(r)


PROFILES = [
    {}, {}, {"bits": 0.7}, {"bits": 0.4, "align": True, "array": 0.5, "dyn": 0.5, "leb": 0.1},
    {"array": 0.7, "dyn": 0.15}, {"odd": True, "ptr": 0.4, "array": 0.4}, {"enum": 0.5, "array": 0.5},
    {"nested": 0.5, "depth": 3}, {"fields": (6, 16), "bits": 0.15, "nested": 0.05, "dyn": 0.1},
    {"fields": (4, 10), "align": True, "dyn": 0.5, "array": 0.4},
]


def w_program(ctx, i):
    root, cfg = program(ctx, PROFILES[i % len(PROFILES)])
    loaded = load(ctx, root, cfg)
    if loaded is not None:
        drive(ctx, root, cfg, loaded)


# exhaustive sequences of small field kinds: the block planner works on sequences

def kinds():
    e = M.En("E1", M.SC["uint16"], False, [("EA", 0), ("EB", 1)], [("EA", None), ("EB", None)])
    S = M.SC
    return [
        ("u8", lambda: S["uint8"], None), ("i16", lambda: S["int16"], None), ("u24", lambda: S["uint24"], None),
        ("u64", lambda: S["uint64"], None), ("c", lambda: S["char"], None), ("c3", lambda: M.Ar(S["char"], "n", 3), None),
        ("w", lambda: S["wchar"], None), ("w2", lambda: M.Ar(S["wchar"], "n", 2), None), ("f", lambda: S["float"], None),
        ("e", lambda: e, None), ("ea2", lambda: M.Ar(e, "n", 2), None), ("p", lambda: M.Pt(S["uint8"]), None),
        ("pa2", lambda: M.Ar(M.Pt(S["char"]), "n", 2), None), ("u16a0", lambda: M.Ar(S["uint16"], "n", 0), None),
        ("u32a2", lambda: M.Ar(S["uint32"], "n", 2), None), ("i48a2", lambda: M.Ar(S["int48"], "n", 2), None),
        ("c0", lambda: M.Ar(S["char"], "0"), None), ("leb", lambda: S["uleb128"], None), ("v", lambda: S["void"], None),
        ("b8:3", lambda: S["uint8"], 3), ("b16:9", lambda: S["uint16"], 9), ("be16:7", lambda: e, 7),
        ("b32:32", lambda: S["int32"], 32),
        ("m", lambda: M.Ar(M.Ar(S["int16"], "n", 2), "n", 2), None), ("u128", lambda: S["uint128"], None),
    ]


K = kinds()


def seq_case(ctx, idxs, align):
    cfg = M.Cfg(ctx.rng.choice("<>!=@"), M.SC[ctx.rng.choice(("uint32", "uint64", "uint24", "uint16"))])
    k = kinds()
    fs = [M.Fd(f"f{j}", k[x][1](), k[x][2]) for j, x in enumerate(idxs)]
    # one enum object for the whole program
    en = None
    for f in fs:
        for holder, attr in ((f, "t"), (f.t, "elem")):
            x = getattr(holder, attr, None)
            if isinstance(x, M.En):
                en = en or x
                setattr(holder, attr, en)
    root = M.St("S1", fs, False, align)
    try:
        M.layout(root, cfg)
    except M.OutOfDomain:
        ctx.ev("straddled_sequences")
        return
    loaded = load(ctx, root, cfg)
    if loaded is None:
        return
    drive(ctx, root, cfg, loaded, 1)


def w_pairs(ctx, i):
    """Every ordered pair of field kinds, packed and aligned."""
    n = len(K)
    align, i = i % 2 == 1, i // 2
    seq_case(ctx, (i // n, i % n), align)


def w_triples(ctx, i):
    n = len(K)
    seq_case(ctx, tuple(ctx.rng.randrange(n) for _ in range(ctx.rng.choice((3, 3, 4, 5)))), ctx.rng.random() < 0.6)


def w_all_triples(ctx, i):
    n = len(K)
    align, i = i % 2 == 1, i // 2
    seq_case(ctx, (i // n // n, i // n % n, i % n), align)


# definitions the generator cannot handle must fall back

def make_custom():
    from dissect.cstruct import BaseType

    class Custom(BaseType):
        def __init__(self, v=0):
            self.v = v

        def __eq__(self, o):
            return getattr(o, "v", o) == self.v

        __hash__ = None

        @classmethod
        def _read(cls, stream, context=None):
            b = stream.read(2)
            if len(b) != 2:
                raise EOFError
            return type.__call__(cls, b[0] ^ b[1] << 8)

        @classmethod
        def _read_0(cls, stream, context=None):
            out = []
            while (x := cls._read(stream, context)).v:
                out.append(x)
            return out

        @classmethod
        def _write(cls, stream, data):
            return stream.write(bytes((data.v & 255, data.v >> 8)))

        @classmethod
        def __default__(cls):
            return type.__call__(cls, 0)

    return Custom


def w_fallback(ctx, i):
    rng = ctx.rng
    parts = ["uint8 a;", "custom c;", "uint16 d[2];", "custom e[2];", "uint8 b1 : 3;", "uint8 b2 : 5;", "custom *p;",
             "char s[];", "custom z[];"]
    rng.shuffle(parts)
    use = parts[: rng.randrange(2, len(parts) + 1)]
    text = ("#[nocompile]\n" if rng.random() < 0.2 else "") + "struct S1 {\n" + "\n".join(use) + "\n};\n"
    if rng.random() < 0.4:
        text += "struct S2 { uint8 x; S1 s; uint16 y; S1 t[2]; };\n"
    endian = rng.choice("<>!=@")
    align = rng.random() < 0.5
    res = []
    for comp in MODES:
        cs = cstruct(endian=endian, pointer="uint32")
        cs.add_custom_type("custom", make_custom(), 2, 2)
        r = call(cs.load, text, compiled=comp, align=align)
        if isinstance(r, Err):
            ctx.fail("fallback-load-failed", {"definition": text, "mode": mode_name(comp), "raised": repr(r)})
            return
        T = cs.S2 if "S2" in text else cs.S1
        if comp and not getattr(cs.S1, "__compiled__", False):
            ctx.ev("fallback_used")
        res.append((cs, T))
    data = bytes(rng.choice((0, 1, 2, 0x41, 0xFF)) for _ in range(80))
    ctx.key(text, endian, align, data)
    outs = []
    for cs, T in res:
        s = BytesIO(data)
        o = call(T, s)
        if isinstance(o, Err):
            outs.append(("raise", o.name))
        else:
            d = call(o.dumps)
            outs.append(("value", s.tell(), d if not isinstance(d, Err) else d.name))
    ctx.check(outs[0] == outs[1], "fallback-differs", {"definition": text, "endian": endian, "align": align, "input": data,
                                                       "interpreted": repr(outs[0]), "compiled": repr(outs[1])})
    if outs[0][0] == "value":
        a, b = res[0][1](data), res[1][1](data)
        ctx.check(repr(a).split(" at 0x")[0] == repr(b).split(" at 0x")[0], "fallback-value", {"definition": text, "a": repr(a), "b": repr(b)})


def w_offsets(ctx, i):
    """Structures whose fields were placed at explicit offsets (API), in both modes."""
    rng = ctx.rng
    endian = rng.choice("<>!=@")
    names = ["uint8", "uint16", "int32", "uint64", "char", "uint24", "float", "wchar"]
    plan = []
    off = 0
    for j in range(rng.randrange(1, 6)):
        n = rng.choice(names)
        t = M.SC[n]
        cnt = rng.choice((None, None, 2, 3))
        gap = rng.choice((0, 0, 1, 2, 5))
        explicit = gap > 0 or rng.random() < 0.3
        off += gap
        plan.append((f"f{j}", n, cnt, off if explicit else None, off))
        off += t.size * (cnt or 1)
    from dissect.cstruct import compiler as comp_mod

    obs = []
    data = bytes(rng.randrange(1, 128) for _ in range(off + 3))
    if any(n == "wchar" for _, n, *_ in plan):
        data = bytes(x & 0x3F or 1 for x in data)
    for comp in MODES:
        cs = cstruct(endian=endian)
        cs.load("struct S1 { };", compiled=comp)
        S = cs.S1

        def add():
            for nm, n, cnt, eo, _ in plan:
                T_ = cs.resolve(n)
                S.add_field(nm, T_[cnt] if cnt else T_, offset=eo)

        if rng.random() < 0.5:
            with S.start_update():
                add()
        else:
            add()
        if comp and not S.__compiled__:
            S = comp_mod.compile(S)
        ctx.ev("offset_fields", len(plan))
        s = BytesIO(b"\xAA" * 5 + data)
        s.seek(5)
        o = call(S, s)
        if isinstance(o, Err):
            obs.append(("raise", o.name))
            continue
        vals = []
        for nm, n, cnt, eo, real in plan:
            t = M.SC[n]
            mt = t if cnt is None else M.Ar(t, "n", cnt)
            exp = M.parse(mt, data, M.Cfg(endian), real)
            got = canon(mt, getattr(o, nm))
            vals.append(got)
            if exp[2].noncanon:
                continue
            ctx.check(got == exp[0], "offset-field-value", {
                "plan": repr(plan), "endian": endian, "mode": mode_name(comp), "input": data, "field": nm,
                "expected": repr(exp[0]), "got": repr(got)})
        cuts = []
        for c in range(len(data)):
            r = call(S, data[:c])
            cuts.append(isinstance(r, Err))
        obs.append(("value", vals, s.tell() - 5, S.size, [f.offset for f in S.__fields__]))
    ctx.key(plan, endian, data)
    ctx.check(obs[0] == obs[1], "offset-readers-differ", {"plan": repr(plan), "endian": endian, "input": data,
                                                         "interpreted": repr(obs[0]), "compiled": repr(obs[1])})


def w_big(ctx, i):
    """The same where one dimension is big: long arrays and strings, hundreds of fields, deep nesting, big unions."""
    root, cfg = gen.big_program(ctx.rng, limit=9000)
    loaded = load(ctx, root, cfg)
    ctx.ev("big")
    if loaded is not None:
        drive(ctx, root, cfg, loaded, 1)


def w_huge(ctx, i):
    """Arrays around 2**16 and 2**17 elements, and what comes after them, as fields that a compiled reader takes in one go."""
    rng = ctx.rng
    cfg = M.Cfg(rng.choice("<>!=@"), M.SC[rng.choice(gen.PTRS)])
    n = rng.choice((65535, 65536, 65537, 70000, 100000, 131071, 131072, 131073))
    names = ("uint8", "int8", "char", "wchar", "uint16", "int16", "uint24", "uint32", "float16", "float", "double", "int64")
    kind = (*names, "enum", "pointer", "record")[i % 15]
    el = {"enum": M.En("E1", M.SC["uint16"], bool(i & 16), [("A1", 1)], [("A1", "1")]), "pointer": M.Pt(M.SC["uint8"]),
          "record": M.St("R1", [M.Fd("a", M.SC["uint8"]), M.Fd("b", M.SC["uint16"])], False, False)}.get(kind) or M.SC[kind]
    align = rng.random() < 0.4
    if kind == "record":
        el.align = align
    fs = [M.Fd("h", M.SC[rng.choice(("uint8", "uint16", "double"))])] if rng.random() < 0.7 else []
    if rng.random() < 0.3:
        fs.append(M.Fd("k", M.Ar(M.SC["float"], "n", 3)))
    fs += [M.Fd("x", M.Ar(el, "n", n)), M.Fd("t", M.SC[rng.choice(("uint8", "uint32", "uint24"))])]
    if rng.random() < 0.5:
        fs += [M.Fd("y", M.Ar(M.SC[rng.choice(("uint16", "char", "int24"))], "n", 5)), M.Fd("z", M.SC["int16"])]
    root = M.St("HUGE", fs, False, align)
    cfg.big = n
    loaded = load(ctx, root, cfg)
    if loaded is None:
        return
    TI, TC = loaded[False][1], loaded[True][1]
    check_layout(ctx, root, cfg, TI, TC)
    data = gen.gen_data(rng, root, cfg)
    if data is None:
        return
    data, v, e, _ = data
    ctx.ev("huge")
    ctx.key("huge", M.program_text(root, cfg.consts), cfg.endian, data[:64])
    for k in (None, len(data) - 1, len(data) // 2):
        a, b = observe(root, TI, data[:k]), observe(root, TC, data[:k])
        brief = lambda: {"definition": M.program_text(root, cfg.consts), "endian": cfg.endian, "length": len(data), "cut": k,  # noqa: E731
                         "interpreted": repr(a[:4])[:300], "compiled": repr(b[:4])[:300],
                         "differ": [n for n in a[1] if a[1][n] != b[1].get(n)] if a[0] == b[0] == "value" else None}
        if k is None:
            ctx.check(a[0] == b[0] == "value" and a[1] == b[1] == v, "values-differ", brief)
        if a[0] == b[0] == "value":
            ctx.check(a[1] == b[1] and a[2] == b[2] and a[3] == b[3], "observed-differs", brief)


def w_dynunion(ctx, i):
    """Unions of data-dependent size between and around compiled fields."""
    r = dynunion_program(ctx)
    if r is None:
        return
    loaded = load(ctx, *r)
    ctx.ev("dynamic_unions")
    if loaded is not None:
        drive(ctx, *r, loaded, 2)


def plain(o):
    fs = getattr(o.__class__, "__fields__", None)
    if fs is not None:
        return [(f._name, plain(getattr(o, f._name))) for f in fs]
    if isinstance(o, list):
        return [plain(x) for x in o]
    if isinstance(o, float):
        return repr(float(o))
    return bytes(o) if isinstance(o, bytes) else str(o) if isinstance(o, str) else int(o)


def w_namesakes(ctx, i):
    """Structures with the same text whose member types share a name but are different types."""
    from dissect.cstruct import Field

    rng = ctx.rng
    e = rng.choice("<>!=@")
    align = rng.random() < 0.4
    ty = lambda: rng.choice(("uint8", "int16", "uint32", "uint24", "char", "wchar", "int64", "float", "uleb128"))  # noqa: E731

    def one():
        k = rng.randrange(6)
        if k == 0:
            return ("int", rng.choice((1, 2, 3, 4, 5, 8)), rng.random() < 0.5)
        if k == 1:
            return ("enum", rng.choice(("uint8", "int16", "uint32", "int8")), rng.randrange(1, 5))
        return ("struct" if k < 5 else "union", [(f"f{j}", rng.choice(("uint8", "int16", "uint32", "char", "uint24", "int64")) if k == 5 else ty(), rng.choice((None, None, 2)))
                                                 for j in range(rng.randint(1, 3))])

    plans = [one() for _ in range(rng.randint(2, 5))]
    body = rng.choice(("uint8 h; same_t i; uint16 t;", "same_t i[2]; uint8 t;", "uint8 h; same_t i; same_t k[2]; uint8 t;", "uint8 n; same_t i[n & 3]; uint32 t;",
                       "uint16 a : 4; uint16 b : 12; same_t i; uint8 t;", "struct { uint8 q; same_t i; } s; uint8 t;", "same_t *p; same_t i; uint8 t;"))
    inputs = [bytes(rng.choice((0, 1, 2, 0x41, 0x7F)) for _ in range(90)) for _ in range(2)] + [rng.randbytes(90).replace(b"\xd8", b"\x01")]
    order = [rng.randrange(len(plans)) for _ in range(4)] + list(range(len(plans)))
    obs = []
    for comp in MODES:
        cs = cstruct(endian=e)
        Ts = []
        for j, p in enumerate(plans):
            if p[0] == "int":
                T = cs._make_int_type("same_t", p[1], p[2], alignment=1 << (p[1] - 1).bit_length())
            elif p[0] == "enum":
                T = cs._make_enum("same_t", cs.resolve(p[1]), {"A": p[2], "B": 1, "C": 0})
            else:
                fs = [Field(n, cs.resolve(t) if c is None else cs.resolve(t)[c]) for n, t, c in p[1]]
                T = (cs._make_struct if p[0] == "struct" else cs._make_union)("same_t", fs, align=align)
            cs.add_type("same_t", T, replace=True)
            r = call(cs.load, f"struct h{j} {{ {body} }};", compiled=comp, align=align)
            if isinstance(r, Err):
                ctx.fail("namesakes-load", {"plans": repr(plans), "body": body, "raised": repr(r)})
                return
            Ts.append(cs.resolve(f"h{j}"))
        out = []
        for j in order:
            for data in inputs:
                s = BytesIO(data)
                o = call(Ts[j], s)
                out.append((j, "raise" if isinstance(o, Err) else plain(o), None if isinstance(o, Err) else s.tell(), None if isinstance(o, Err) else repr(call(o.dumps))))
        obs.append(out)
    ctx.ev("namesakes")
    ctx.key("namesakes", repr(plans), body, align)
    for a, b in zip(*obs):
        ctx.check(a == b, "namesakes-differ", lambda: {"plans": repr(plans), "body": body, "align": align, "endian": e, "class": a[0], "interpreted": repr(a), "compiled": repr(b)})


QUICK_FACTOR = 2
WORKLOADS = {
    "namesakes": (w_namesakes, 200, 3000),
    "dynunion": (w_dynunion, 250, 5000),
    "big": (w_big, 100, 2500),
    "huge": (w_huge, 15, 300),
    "pairs": (w_pairs, lambda: 2 * len(K) ** 2, lambda: 2 * len(K) ** 2),
    "program": (w_program, 1900, 40000),
    "triples": (w_triples, 1300, 0),
    "all-triples": (w_all_triples, 0, lambda: 2 * len(K) ** 3),
    "fallback": (w_fallback, 300, 3000),
    "offsets": (w_offsets, 300, 4000),
}
