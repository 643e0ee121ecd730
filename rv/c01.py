"""C01 value round trip: parse(dumps(v)) == v, exactly len(dumps(v)) bytes; numbers that do not fit are refused."""
from __future__ import annotations

from . import gen, lib
from . import model as M
from .boot import cstruct
from .common import (MODES, BytesIO, Err, assign, call, canon, count_features, ends_with_eof, float_of, has_union,
                     load, make, masked, mode_name, pad_free_unions, program, witness)

PID = "C01"
ANCHORS = ["types/base.py", "types/structure.py", "bitbuffer.py", "types/packed.py", "types/int.py", "types/char.py",
           "types/wchar.py", "types/enum.py", "types/leb128.py", "types/pointer.py"]
RULE = ("A case is a generated definition or a single type with values obtained by parsing canonical input, by construction "
        "from Python values and by assignment; every value is dumped and parsed back (both reader modes, aligned and packed, "
        "all endiannesses) and compared with the library's own equality and with the reference model; out-of-range integers "
        "are offered to every kind of integer slot.  Non-trivial: a dump was produced and parsed back, or an out-of-range "
        "number was offered; distinct by definition, configuration and value.")
ASSUMPTIONS = ["floats are representable in their type and not NaN", "wchar text has no lone surrogates",
               "array counts of expression-sized arrays agree with the fields they are computed from"]
REQUIRED = ["big", "roundtrip_parsed", "roundtrip_constructed", "range_refused", "range_accepted", "type_roundtrip", "roundtrip_assigned", "long_arrays", "refused_in_long"]


def back(ctx, root, cfg, comp, T, o, how, exp=None, data=None):
    """dumps -> parse -> equal."""
    b = call(T.dumps, o)
    if isinstance(b, Err):
        ctx.fail("dump-failed", witness(root, cfg, comp, data, how=how, value=repr(o), raised=repr(b)))
        return None
    if exp is not None:
        ctx.check(b == exp, "dump-value", lambda: witness(root, cfg, comp, data, how=how, value=repr(o), output=b.hex(),
                                                         expected=exp.hex()))
    tail = b"" if ends_with_eof(root) else ctx.rng.choice((b"", b"", b"\xff" * 9))
    s = BytesIO(b + tail)
    p = call(T, s)
    if isinstance(p, Err):
        ctx.fail("parse-back-failed", witness(root, cfg, comp, b, how=how, value=repr(o), raised=repr(p)))
        return None
    ctx.check(s.tell() == len(b), "consumed", lambda: witness(root, cfg, comp, b, how=how, consumed=s.tell(), dumped=len(b)))
    eq = call(lambda: p == o)
    ctx.check(eq is True, "not-equal", lambda: witness(root, cfg, comp, b, how=how, value=repr(o), parsed=repr(p), eq=repr(eq)))
    c1, c2 = canon(root, o), canon(root, p)
    ctx.check(not isinstance(c2, Err) and c1 == c2, "field-changed",
              lambda: witness(root, cfg, comp, b, how=how, before=repr(c1), after=repr(c2)))
    ctx.key(M.program_text(root, cfg.consts), cfg.endian, cfg.ptr.name, comp, how, b)
    return p


def w_program(ctx, i):
    rng = ctx.rng
    prof = rng.choice(({}, {}, {"bits": 0.6}, {"array": 0.6, "dyn": 0.6}, {"union": 0.4, "depth": 3}, {"enum": 0.4}))
    one(ctx, *program(ctx, dict(prof)))


def w_big(ctx, i):
    """The same where one dimension is big: long arrays and strings, hundreds of fields, deep nesting, big unions."""
    root, cfg = gen.big_program(ctx.rng)
    ctx.ev("big")
    one(ctx, root, cfg, 1)


def one(ctx, root, cfg, inputs=2):
    rng = ctx.rng
    loaded = load(ctx, root, cfg)
    if loaded is None:
        return
    count_features(ctx, root)
    exact = pad_free_unions(root, cfg)
    for k in range(inputs):
        d = gen.gen_data(rng, root, cfg)
        if d is None:
            continue
        data, v, e, q = d
        exp = masked(data, e, bytes(q.mask) + bytes(e))
        for comp in MODES:
            T = loaded[comp][1]
            o = call(T, data)
            if isinstance(o, Err):
                ctx.fail("parse-failed", witness(root, cfg, comp, data, raised=repr(o)))
                continue
            c = canon(root, o)
            ctx.check(c == v, "parsed-value", lambda: witness(root, cfg, comp, data, expected=repr(v), got=repr(c)))
            ctx.ev("roundtrip_parsed")
            back(ctx, root, cfg, comp, T, o, "parsed", exp, data)
            # the same value by construction
            m = call(make, T, root, v)
            if isinstance(m, Err):
                ctx.fail("construct-failed", witness(root, cfg, comp, data, value=repr(v), raised=repr(m)))
                continue
            ctx.ev("roundtrip_constructed")
            back(ctx, root, cfg, comp, T, m, "constructed", exp if exact else None, data)
            ctx.check(not exact or call(lambda: m == o) is True, "constructed-differs",
                      lambda: witness(root, cfg, comp, data, constructed=repr(m), parsed=repr(o)))
            # and by assigning every field of a default instance
            z = call(T)
            if root.fields and not isinstance(z, Err):
                r = call(lambda: [assign(z, f, F, v) for f, F in zip(root.fields, T.__fields__)])
                if isinstance(r, Err):
                    ctx.fail("assign-failed", witness(root, cfg, comp, data, value=repr(v), raised=repr(r)))
                else:
                    ctx.ev("roundtrip_assigned")
                    back(ctx, root, cfg, comp, T, z, "assigned", exp if exact else None, data)
        if k == 0:
            ctx.sample(witness(root, cfg, data=data, value=repr(v)[:400]))


# -------------------------------------------------------------------------------------------- integers that don't fit


def bad_ints(rng, lo, hi):
    span = hi - lo + 1
    out = [hi + 1, lo - 1, hi + span, lo - span, hi + 1 + rng.randrange(span), lo - 1 - rng.randrange(span), 1 << 200,
           -(1 << 200), 2 * hi + 2 if hi else 2]
    return [x for x in out if not lo <= x <= hi]


def good_ints(rng, lo, hi):
    return [lo, hi, 0 if lo <= 0 <= hi else lo, rng.randint(lo, hi), max(lo, -1), min(hi, 1)]


def rng_of(t):
    n = t.size * 8
    return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if t.signed else (0, (1 << n) - 1)


def w_range(ctx, i):
    """Offer in-range and out-of-range integers to every kind of integer slot."""
    rng = ctx.rng
    cfg = M.Cfg(rng.choice("<>!=@"), M.SC[rng.choice(gen.PTRS)])
    align = rng.random() < 0.5
    t = M.SC[gen.INTS[i % len(gen.INTS)]]
    lo, hi = rng_of(t)
    nb = rng.randint(1, t.size * 8)
    comp = rng.random() < 0.5
    e = M.En("E1", t, rng.random() < 0.3, [], [])
    e.raw = [("A1", "1"), ("B1", str(min(hi, 77)))]
    e.members = [("A1", 1), ("B1", min(hi, 77))]
    u8 = M.SC["uint8"]
    inner = M.St("S2", [M.Fd("g0", u8), M.Fd("g1", t), M.Fd("g2", u8)], False, align)
    un = M.St("S3", [M.Fd("h0", M.Ar(u8, "n", t.size)), M.Fd("h1", t)], True, align)
    root = M.St("S1", [
        M.Fd("f0", u8), M.Fd("f1", t), M.Fd("f2", M.Ar(t, "n", 3)), M.Fd("f3", e), M.Fd("f4", M.Pt(u8)),
        M.Fd("f5", t, nb), M.Fd("f6", e, 1) if nb == t.size * 8 or rng.random() < 0.5 else M.Fd("f6", t, t.size * 8 - nb),
        M.Fd("f7", inner), M.Fd("f8", M.Ar(t, "0")), M.Fd("f9", M.Ar(e, "n", 2)), M.Fd("fa", un),
        M.Fd("fb", M.SC["uleb128"]), M.Fd("fc", M.Ar(inner, "n", 2)), M.Fd("fd", M.Ar(e, "0")), M.Fd("fe", M.Ar(M.Pt(u8), "n", 2)),
        M.Fd("ff", M.Ar(M.Ar(t, "n", 2), "n", 2)),
    ], False, align)
    loaded = load(ctx, root, cfg, (comp,))
    if loaded is None:
        return
    cs, T = loaded[comp]
    S2, S3 = cs.S2, cs.S3

    def E(x):
        r_ = cs.E1(x)
        if e.flag and r_.value != x:
            # like any IntFlag, a flag normalises a number with more bits than it has when it is constructed
            raise OverflowError(x)
        return r_

    base = M.zero(root, cfg)
    plo, phi = rng_of(cfg.ptr)
    nf6 = root.fields[6].bits

    def slot(name, lo_, hi_, put):
        for x in good_ints(rng, lo_, hi_):
            o = T()
            r = call(put, o, x)
            b = call(T.dumps, o) if not isinstance(r, Err) else r
            ctx.check(not isinstance(b, Err), "in-range-refused", lambda: witness(
                root, cfg, comp, slot=name, value=x, raised=repr(b)))
            if isinstance(b, Err):
                continue
            ctx.ev("range_accepted")
            p = call(T, b)
            ctx.check(not isinstance(p, Err) and call(lambda: p == o) is True and call(T.dumps, p) == b, "range-roundtrip",
                      lambda: witness(root, cfg, comp, b, slot=name, value=x, parsed=repr(p), wrote=repr(o)))
        for x in bad_ints(rng, lo_, hi_):
            o = T()
            r = call(put, o, x)
            b = call(T.dumps, o) if not isinstance(r, Err) else r
            ctx.ev("range_refused")
            ctx.key("range", t.name, cfg.endian, align, comp, name, x, nb)
            ctx.check(isinstance(b, Err), "out-of-range-accepted", lambda: witness(
                root, cfg, comp, slot=name, value=x, wrote=b.hex() if isinstance(b, bytes) else repr(b)))

    def put_in(o, path, x):
        setattr(o, path, x)

    slot("scalar field", lo, hi, lambda o, x: setattr(o, "f1", x))
    slot("array element", lo, hi, lambda o, x: setattr(o, "f2", [0, x, 0] if rng.random() < 0.5 else [x, 0, 0]))
    slot("enum field", lo, hi, lambda o, x: setattr(o, "f3", E(x)))
    slot("pointer field", plo, phi, lambda o, x: setattr(o, "f4", x))
    slot("bit-field", 0, (1 << nb) - 1, lambda o, x: setattr(o, "f5", x))
    if nf6:
        is_e = isinstance(root.fields[6].t, M.En)
        slot("second bit-field", 0, (1 << nf6) - 1, lambda o, x: setattr(o, "f6", E(x) if is_e else x))
    slot("nested field", lo, hi, lambda o, x: setattr(o.f7, "g1", x))
    slot("null-terminated array", lo, hi, lambda o, x: setattr(o, "f8", [x or 1]))
    slot("enum array", lo, hi, lambda o, x: setattr(o, "f9", [E(0), E(x)]))
    slot("union member", lo, hi, lambda o, x: setattr(o.fa, "h1", x))
    slot("nested in array", lo, hi, lambda o, x: setattr(o.fc[1], "g1", x))
    slot("null-terminated enum array", lo, hi, lambda o, x: setattr(o, "fd", [E(x or 1)]))
    slot("pointer array", plo, phi, lambda o, x: setattr(o, "fe", [0, x]))
    slot("multi-dimensional array", lo, hi, lambda o, x: setattr(o, "ff", [[0, 0], [x, 0]]))
    slot("uleb128 field", 0, 1 << 300, lambda o, x: setattr(o, "fb", x if x <= 1 << 300 else -1))
    # by construction and by the type's own dumps
    for x in bad_ints(rng, lo, hi):
        for how, fn in (("keyword", lambda: T(f1=x).dumps()), ("type.dumps", lambda: getattr(cs, t.name).dumps(x)),
                        ("array type.dumps", lambda: getattr(cs, t.name)[2].dumps([0, x])),
                        ("null array type.dumps", lambda: getattr(cs, t.name)[None].dumps([1, x])),
                        ("enum type.dumps", lambda: cs.E1.dumps(E(x))), ("enum array", lambda: cs.E1[2].dumps([E(0), E(x)])),
                        ("union keyword", lambda: S3(h1=x).dumps()), ("value.dumps", lambda: getattr(cs, t.name)(x).dumps()),
                        ("write", lambda: getattr(cs, t.name).write(BytesIO(), x))):
            r = call(fn)
            ctx.ev("range_refused")
            ctx.check(isinstance(r, Err), "out-of-range-accepted", lambda: witness(
                root, cfg, comp, slot=how, value=x, wrote=r.hex() if isinstance(r, bytes) else repr(r)))
    for x in (-1, -(1 << 40)):
        ctx.check(isinstance(call(lambda: cs.uleb128.dumps(x)), Err), "out-of-range-accepted", {"slot": "uleb128", "value": x})
    del base, put_in, S2


def w_long(ctx, i):
    """Long arrays, of which one element doesn't fit: refused wherever it is, and accepted again once it's replaced."""
    rng = ctx.rng
    cfg = M.Cfg(rng.choice("<>!=@"), M.SC[rng.choice(gen.PTRS)])
    t = M.SC[gen.INTS[i % len(gen.INTS)]]
    lo, hi = rng_of(t)
    n = rng.choice((31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4097))
    kind = rng.choice(("scalar", "scalar", "enum", "pointer", "rows", "records", "null"))
    e = M.En("E1", t, False, [("A1", 1)], [("A1", "1")])
    inner = M.St("S2", [M.Fd("g0", M.SC["uint8"]), M.Fd("g1", t)], False, False)
    if kind == "pointer":
        lo, hi = rng_of(cfg.ptr)
    el = {"scalar": t, "null": t, "enum": e, "pointer": M.Pt(M.SC["uint8"]), "rows": M.Ar(t, "n", 3), "records": inner}[kind]
    root = M.St("S1", [M.Fd("f0", M.SC["uint8"]), M.Fd("f1", M.Ar(el, "0") if kind == "null" else M.Ar(el, "n", n)), M.Fd("f2", t)], False, False)
    comp = rng.random() < 0.5
    loaded = load(ctx, root, cfg, (comp,))
    if loaded is None:
        return
    cs, T = loaded[comp]
    base = [rng.choice((lo, hi, max(lo, min(hi, 7)), rng.randint(lo, hi))) or 1 for _ in range(n)]

    def value(xs):
        if kind == "enum":
            return [cs.E1(x) for x in xs]
        if kind == "rows":
            return [[1, x, 2] for x in xs]
        if kind == "records":
            return [cs.S2(g0=1, g1=x) for x in xs]
        return list(xs)

    ctx.ev("long_arrays")
    o = T(f1=value(base))
    b = call(T.dumps, o)
    p = call(T, b) if not isinstance(b, Err) else b
    ctx.check(not isinstance(p, Err) and call(lambda: p == o) is True and call(T.dumps, p) == b, "range-roundtrip", lambda: witness(
        root, cfg, comp, None, slot=f"array of {n}", parsed=repr(p)[:200], wrote=repr(b)[:200]))
    if isinstance(p, Err):
        return
    for x in rng.sample(bad_ints(rng, lo, hi), 3):
        at = rng.choice((0, n - 1, rng.randrange(n)))
        for how in ("constructed", "parsed", "type.dumps"):
            xs = list(base)
            xs[at] = x

            def fn():
                if how == "parsed":
                    new = value([x])[0]
                    p.f1[at] = new
                    return T.dumps(p)
                if how == "type.dumps":
                    return T.__fields__[1].type.dumps(value(xs))
                return T(f1=value(xs)).dumps()

            r = call(fn)
            ctx.ev("range_refused")
            ctx.ev("refused_in_long")
            ctx.check(isinstance(r, Err), "out-of-range-accepted", lambda: witness(
                root, cfg, comp, slot=f"element {at} of {n}, {how}", value=x, wrote=r[:40].hex() if isinstance(r, bytes) else repr(r)))
        p.f1[at] = value([base[at]])[0]
        ctx.check(call(T.dumps, p) == b, "after-refusal", lambda: witness(root, cfg, comp, None, slot=f"element {at} of {n}", value=x))
    ctx.key("long", kind, t.name, n, cfg.endian, comp, base[:8])


# -------------------------------------------------------------------------------------------- single types


def w_types(ctx, i):
    """Every type on its own (the type of a field), not as part of a structure."""
    rng = ctx.rng
    root, cfg = program(ctx, {"fields": (2, 6), "bits": 0.0, "array": 0.55, "dyn": 0.5, "leb": 0.2, "enum": 0.25, "exprs": False})
    comp = rng.random() < 0.5
    loaded = load(ctx, root, cfg, (comp,))
    if loaded is None:
        return
    T = loaded[comp][1]
    for f, F in zip(root.fields, T.__fields__):
        t, FT = f.t, F.type
        if isinstance(t, M.Sc) and t.kind == "void":
            continue
        d = gen.gen_data(rng, t, cfg)
        if d is None:
            continue
        data, v, e, q = d
        tail = b"" if isinstance(t, M.Ar) and t.form == "eof" else rng.choice((b"", b"\xff\x01\x00"))
        s = BytesIO(data + tail)
        o = call(FT, s)
        det = lambda **kw: witness(root, cfg, comp, data, field=f.name, type=repr(t), **kw)  # noqa: E731
        if isinstance(o, Err):
            ctx.fail("parse-failed", det(raised=repr(o)))
            continue
        c = canon(t, o)
        ctx.check(c == v and s.tell() == e, "parsed-value", lambda: det(expected=repr(v), got=repr(c), consumed=s.tell(), end=e))
        exp = masked(data, e, bytes(q.mask) + bytes(e))
        for how, val in (("parsed", o), ("constructed", call(make, FT, t, v))):
            if how == "constructed" and not pad_free_unions(t, cfg):
                continue
            if isinstance(val, Err):
                ctx.fail("construct-failed", det(raised=repr(val)))
                continue
            b = call(FT.dumps, val)
            ctx.check(b == exp, "type-dump", lambda: det(how=how, output=repr(b), expected=exp.hex()))
            w = BytesIO()
            r = call(FT.write, w, val)
            ctx.check(not isinstance(r, Err) and w.getvalue() == exp, "type-write", lambda: det(how=how, output=w.getvalue().hex(), result=repr(r)))
            if isinstance(b, Err):
                continue
            s2 = BytesIO(b + tail)
            p = call(FT, s2)
            ctx.check(not isinstance(p, Err) and call(lambda: p == val) is True and s2.tell() == len(b), "type-roundtrip",
                      lambda: det(how=how, parsed=repr(p), value=repr(val), consumed=s2.tell(), dumped=len(b)))
            ctx.ev("type_roundtrip")
            ctx.key("type", repr(t), cfg.endian, cfg.ptr.name, how, b)
        # the instance's own dumps, where instances carry it
        if hasattr(o, "dumps"):
            r = call(lambda: o.dumps())
            ctx.check(r == exp, "instance-dump", lambda: det(output=repr(r), expected=exp.hex()))


QUICK_FACTOR = 2
WORKLOADS = {
    "big": (w_big, 150, 3000),
    "program": (w_program, 2600, 50000),
    "range": (w_range, 420, 4200),
    "long": (w_long, 240, 4000),
    "types": (w_types, 1200, 20000),
}
