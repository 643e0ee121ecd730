"""C02 byte fidelity: dumping a parsed value reproduces every data-carrying input bit, padding is zero."""
from __future__ import annotations

import re

from . import gen, lib
from . import model as M
from .common import (MODES, BytesIO, Err, call, canon, count_features, ends_with_eof, load, masked, mode_name, program,
                     witness)

PID = "C02"
ANCHORS = ["types/structure.py", "bitbuffer.py", "types/base.py", "types/char.py", "types/wchar.py"]
RULE = ("A case is a generated definition (structures, unions, arrays of every form, bit-fields, pointers, enums, nesting, "
        "packed/aligned/mixed, all endiannesses and pointer widths) with several canonical inputs that carry random, zero "
        "or 0xff padding.  Non-trivial: the input was parsed and dumped and both were compared with the data-bit mask of "
        "the reference model; distinct by definition, configuration and input.")
ASSUMPTIONS = ["canonical inputs only: minimal LEB128, no NaN, no lone surrogates", "the reference model's data mask",
               "the native codes @ and = are this machine's byte order",
               "of several fields named _ only the last value is kept (a known finding), driven with such fields of one type only"]
REQUIRED = ["big", "dumps_compared", "padding_bytes_seen", "random_inputs", "nested_writes", "feature:bits", "feature:union",
            "feature:arr0", "feature:arre", "feature:aligned",
            "underscore_fields"]


def judge(ctx, root, cfg, T, comp, data, e, mask, why):
    s = BytesIO(data)
    o = call(T, s)
    if isinstance(o, Err):
        ctx.fail("parse-failed", witness(root, cfg, comp, data, raised=repr(o), input_kind=why))
        return None
    tell = s.tell()
    exp = masked(data, e, mask)
    got = call(o.dumps)
    ctx.ev("dumps_compared")
    ctx.key(M.program_text(root, cfg.consts), cfg.endian, cfg.ptr.name, comp, data)
    if not ctx.check(not isinstance(got, Err), "dump-failed",
                     lambda: witness(root, cfg, comp, data, raised=repr(got), input_kind=why)):
        return None
    ctx.check(len(got) == tell, "dump-length", lambda: witness(
        root, cfg, comp, data, consumed=tell, dumped=len(got), output=got.hex(), expected=exp.hex(), input_kind=why))
    ctx.check(got == exp, "dump-bytes", lambda: witness(
        root, cfg, comp, data, consumed=tell, output=got.hex(), expected=exp.hex(), mask=bytes(mask[:e]).hex(), input_kind=why))
    return o


def writes(ctx, root, cfg, T, comp, o, exp, data):
    """The same bytes through every way of writing the value."""
    pre = ctx.rng.randbytes(ctx.rng.choice((0, 1, 3, 8, 16)))
    for name, fn in (("instance.write", lambda s: o.write(s)), ("type.write", lambda s: T.write(s, o))):
        s = BytesIO()
        s.write(pre)
        r = call(fn, s)
        ctx.check(not isinstance(r, Err) and s.getvalue() == pre + exp, "write-bytes", lambda: witness(
            root, cfg, comp, data, how=name, prefix=len(pre), output=s.getvalue().hex(), expected=(pre + exp).hex(),
            result=repr(r)))
        ctx.ev("nested_writes")
    for name, fn in (("type.dumps", lambda: T.dumps(o)), ("bytes()", lambda: bytes(o))):
        r = call(fn)
        ctx.check(r == exp, "dump-form", lambda: witness(root, cfg, comp, data, how=name, output=repr(r), expected=exp.hex()))


def one(ctx, root, cfg, inputs=3):
    loaded = load(ctx, root, cfg)
    if loaded is None:
        return
    count_features(ctx, root)
    rng = ctx.rng
    for k in range(inputs):
        d = gen.gen_data(rng, root, cfg)
        if d is None:
            ctx.ev("no_canonical_input")
            continue
        data, v, e, q = d
        tail = b"" if ends_with_eof(root) else rng.choice((b"", rng.randbytes(7), bytes(9), b"\xff" * 5))
        mask = bytes(q.mask[:e]) + bytes(max(0, e - len(q.mask)))
        ctx.ev("padding_bytes_seen", sum(1 for m in mask if m != 0xFF))
        for comp in MODES:
            o = judge(ctx, root, cfg, loaded[comp][1], comp, data + tail, e, mask, "generated")
            if o is not None and k == 0:
                writes(ctx, root, cfg, loaded[comp][1], comp, o, masked(data, e, mask), data)
        if k == 0:
            ctx.sample({**witness(root, cfg, data=data), "expected_dump": masked(data, e, mask).hex()})
    # arbitrary bytes: whatever the model accepts, the library must reproduce
    size = M.sizeof(root, cfg)
    if size is not None:
        data = rng.randbytes(size)
        p = M.Parser(cfg, data)
        try:
            p.parse(root, 0)
        except (M.Short, M.OutOfDomain):
            return
        if p.noncanon:
            return
        ctx.ev("random_inputs")
        for comp in MODES:
            judge(ctx, root, cfg, loaded[comp][1], comp, data, size, p.mask, "random")


def w_mixed(ctx, i):
    root, cfg = program(ctx)
    one(ctx, root, cfg)


def w_bits(ctx, i):
    root, cfg = program(ctx, {"bits": 0.6, "dyn": 0.5, "align": ctx.rng.random() < 0.7, "leb": 0.12})
    one(ctx, root, cfg)


def w_dyn(ctx, i):
    root, cfg = program(ctx, {"array": 0.6, "dyn": 0.7, "leb": 0.15, "eof": 0.2, "align": ctx.rng.random() < 0.6})
    one(ctx, root, cfg)


def w_union(ctx, i):
    root, cfg = program(ctx, {"union": 0.6, "nested": 0.5, "depth": 3})
    one(ctx, root, cfg)


def w_deep(ctx, i):
    root, cfg = program(ctx, {"depth": 4, "nested": 0.45, "mixed_align": 0.3, "anon": 0.5})
    one(ctx, root, cfg)


def w_big(ctx, i):
    """The same where one dimension is big: long arrays and strings, hundreds of fields, deep nesting, big unions."""
    ctx.ev("big")
    one(ctx, *gen.big_program(ctx.rng), inputs=1)


KNOWN_UNDERSCORE = "duplicate-underscore"


def w_underscore(ctx, i):
    """Fields named `_`, the one name that may occur more than once."""
    rng = ctx.rng
    cfg = M.Cfg(rng.choice("<>!=@"), M.SC[rng.choice(gen.PTRS)])
    g = gen.Gen(rng, gen.Profile(depth=1, anon=0, eof=0, array=0.2, mixed_align=0), cfg)
    g.align = rng.random() < 0.4
    same = M.SC[rng.choice(("uint8", "uint16", "char", "int32", "uint24", "uint64", "float", "wchar", "int8"))]
    if rng.random() < 0.4:
        same = M.Ar(same, "n", rng.randrange(1, 4))
    kind = rng.choice(("plain", "plain", "bits"))
    fs = []
    if kind == "plain":
        for k in range(rng.randrange(2, 7)):
            if rng.random() < 0.45:
                fs.append(M.Fd(f"zz{k}", same))
            else:
                fs.append(M.Fd(f"n{k}", g.fixed_elem(0) if rng.random() < 0.7 else M.Ar(g.null_elem(), "0")))
    else:
        t = M.SC[rng.choice(("uint8", "uint16", "int32", "uint64", "int16"))]
        nb = t.size * 8
        w = rng.choice([x for x in (1, 2, 4, 8, 16) if x < nb])
        fs = [M.Fd("h", M.SC["uint8"])] if rng.random() < 0.5 else []
        fs += [M.Fd(f"{'zz' if rng.random() < 0.4 else 'n'}{k}", t, w) for k in range(rng.randrange(2, min(nb // w, 12) + 1))]
        if rng.random() < 0.5:
            fs.append(M.Fd("t", M.SC["uint8"]))
    us = [f.name for f in fs if f.name.startswith("zz")]
    if len(us) == 0 or len(us) == len(fs):
        return
    root = M.St("R", fs, False, g.align)
    text = re.sub(r"\bzz\d+\b", "_", M.program_text(root, cfg.consts))
    d = gen.gen_data(rng, root, cfg)
    if d is None:
        return
    data, v, e, q = d
    mask = bytes(q.mask[:e]) + bytes(max(0, e - len(q.mask)))
    exp = masked(data, e, mask)
    last = M.encode(root, {**v, **{n: v[us[-1]] for n in us}}, cfg)[0]
    for comp in MODES:
        def det(**kw):
            return {"definition": text, "endian": cfg.endian, "align": g.align, "mode": mode_name(comp),
                    "data": data.hex(), **kw}
        def build():  # noqa: E306
            cs = lib.new_cs(cfg)
            cs.load(text, compiled=comp, align=g.align)
            return cs
        cs = call(build)
        if not ctx.check(not isinstance(cs, Err), "definition-rejected", lambda: det(raised=repr(cs))):
            continue
        st = BytesIO(data + b"tail")
        o = call(cs.R, st)
        if not ctx.check(not isinstance(o, Err), "parse-failed", lambda: det(raised=repr(o))):
            continue
        ctx.ev("underscore_fields", len(us))
        ctx.key(text, cfg.endian, comp, data)
        ctx.check(st.tell() == e, "consumed", lambda: det(expected=e, got=st.tell()))
        for f in fs:
            if f.name.startswith("zz") and f.name != us[-1]:
                continue
            if f.bits and isinstance(f.t, M.En):
                continue
            got = call(M.canon, f.t, getattr(o, "_" if f.name in us else f.name), f.bits)
            ctx.check(got == v[f.name], "field-value", lambda: det(field=f.name, expected=repr(v[f.name]), got=repr(got)))
        got = call(o.dumps)
        if got != exp and len(us) > 1 and got == last:
            ctx.fail("dump-bytes", det(output=got.hex(), expected=exp.hex()), known=KNOWN_UNDERSCORE)
            continue
        ctx.check(got == exp, "dump-bytes", lambda: det(output=repr(got), expected=exp.hex(), fields=len(us)))


def _probe_underscore():
    """Whether the listed finding is still there."""
    from .boot import cstruct
    cs = cstruct()
    cs.load("struct P { uint8 a; uint8 _; uint8 b; uint8 _; };")
    return call(lambda: cs.P(b"\x01\x02\x03\x04").dumps()) != b"\x01\x02\x03\x04"


PROBES = {KNOWN_UNDERSCORE: _probe_underscore}
QUICK_FACTOR = 2
WORKLOADS = {
    "underscore": (w_underscore, 300, 6000),
    "big": (w_big, 150, 3000),
    "mixed": (w_mixed, 2400, 40000),
    "bits": (w_bits, 1200, 20000),
    "dynamic": (w_dyn, 1200, 20000),
    "union": (w_union, 500, 10000),
    "deep": (w_deep, 600, 10000),
}
