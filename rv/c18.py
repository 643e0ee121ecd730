"""C18 incremental and self-referential structures: every state of a build history against the class declared in one piece."""
from __future__ import annotations

import inspect
import io
import itertools
import re

from . import gen, lib
from . import model as M
from .boot import cstruct
from .c13 import sig
from .c15 import plain
from .common import MODES, Err, call, canon, mode_name

PID = "C18"
ANCHORS = ["types/structure.py", "compiler.py", "parser.py"]
RULE = ("A case is a field sequence and a history: how it is cut into segments, how each segment is committed (field by field, start_update, nested or "
        "raising update, commit of an extended list), when the class is compiled, and whether the intermediate class is used.  After the last commit, and "
        "after each intermediate one, the class is compared with a class declared in one piece with the same fields: layout signature, reader kind, "
        "constructor, parse results and stream positions on valid, cut and shifted inputs, dump, write, defaults, equality, hash, truth, arrays.  Rejected additions must "
        "leave the previous state.  Self-references are compared with the model and with the class parsed at the pointer's address.  Non-trivial: at "
        "least one comparison after a commit that followed another; distinct by fields, history and mode.")
ASSUMPTIONS = ["the class declared in one piece is judged by the other properties", "structures that contain themselves by value are packed and variable-sized (trees)",
               "instances that were made before an extension are not judged after it", "typedef struct X { X *p; } does not load in this library and is not judged"]
REQUIRED = ["states", "final_states", "intermediate_states", "segment:single", "segment:batch", "segment:nested", "segment:raising", "segment:commit", "compiled_first",
            "compiled_midway", "compiled_last", "never_compiled", "aligned", "packed", "unions", "became_dynamic", "grew_bits_run", "alignment_grew", "folded", "manual_offsets",
            "rejected_duplicate", "rejected_straddle", "rejected_batch", "self_pointer", "self_pointer_array", "self_pointer_nested", "trees", "self_dereferenced", "used_between", "unused_between",
            "incremental_self", "big_classes"]


# ------------------------------------------------------------------------------------------------ observation


def cut(s):
    """A layout signature without what lies behind pointers."""
    if isinstance(s, tuple):
        return s[:4] if s and s[0] == "ptr" else tuple(cut(x) for x in s)
    return s


def text_of(o):
    return re.sub(r"object at 0x\w+", "object", repr(o))


def origin(method):
    """Where a method comes from: the library's own code or generated."""
    code = getattr(inspect.unwrap(getattr(method, "__func__", method)), "__code__", None)
    return code.co_filename.rsplit("/", 1)[-1] if code is not None else type(method).__name__


def static_view(cs, T):
    f = getattr(T.__init__, "__code__", None)
    return {
        "signature": cut(sig(cs, T, norm=False)),
        "len": plain_or(call(len, T)),
        "init": str(inspect.signature(T.__init__)) if f is not None else None,
        "fields": [(n, x._name, x.bits, x.offset, x.alignment, x.type.__name__) for n, x in T.fields.items()],
        "lookup": list(T.lookup),
        "reader": origin(T._read),
        "writer": origin(T._write),
        "compiled": bool(T.__compiled__),
    }


def plain_or(r):
    return ("raised", r.name) if isinstance(r, Err) else plain(r)


def use(T, data, other, rng_cuts):
    """What the class does with one input."""
    out = {}
    s = io.BytesIO(data)
    o = call(T, s)
    out["parse"] = plain_or(o)
    out["tell"] = s.tell()
    if not isinstance(o, Err):
        out["repr"] = plain_or(call(text_of, o))
        out["bool"] = plain_or(call(bool, o))
        out["sizes"] = plain_or(call(lambda: dict(o._sizes)))
        out["dump"] = plain_or(call(o.dumps))
        out["len"] = plain_or(call(len, o))
        w = io.BytesIO()
        out["write"] = (plain_or(call(lambda: T.write(w, o))), w.getvalue())
        same = call(T, data)
        out["eq"] = (plain_or(call(lambda: o == same)), plain_or(call(lambda: o != same)))
        h = call(hash, o), call(hash, same)
        out["hash"] = [("raised", x.name) if isinstance(x, Err) else "int" for x in h] + [isinstance(h[0], int) and h[0] == h[1]]
        x = call(T, other)
        out["other"] = (plain_or(x), plain_or(call(lambda: o == x)))
        vals = [(f._name, getattr(o, f._name)) for f in T.__fields__]
        void = {f._name for f in T.__fields__ if f.type.__name__ == "void"}
        kw = call(lambda: T(**{n: v for n, v in vals if n not in void}))
        out["kwargs"] = (plain_or(kw), plain_or(call(lambda: kw.dumps())), plain_or(call(lambda: kw == o)))
        pos = call(lambda: T(*[v for _, v in vals]))
        out["positional"] = (plain_or(pos), plain_or(call(lambda: pos.dumps())))
        out["toomany"] = plain_or(call(lambda: T(*[v for _, v in vals], 1)))
        for n, f in list(T.fields.items())[-3:]:
            z = call(T, data)
            r = call(setattr, z, n, call(f.type.__default__) if not f.bits else (f.type(0) if hasattr(f.type, "__members__") else 0))
            out["set " + n] = (plain_or(r), plain_or(z), plain_or(call(lambda: z.dumps())))
    for k in rng_cuts:
        r = call(T, data[:k])
        out[f"cut {k}"] = plain_or(r)
    s = io.BytesIO(b"\xa5" * 16 + data)
    s.seek(16)
    out["shifted"] = (plain_or(call(T.read, s)), s.tell())
    out["array"] = plain_or(call(lambda: T[2](data + data + data)))
    return out


def defaults(T):
    o = call(T)
    return {"default": plain_or(o), "default dump": plain_or(call(lambda: o.dumps())), "default bool": plain_or(call(bool, o)), "default repr": plain_or(call(text_of, o)),
            "default eq": plain_or(call(lambda: o == T())), "Type.__default__": plain_or(call(T.__default__)), "empty": plain_or(call(T, b""))}


def compare(ctx, cs, A, B, datas, d):
    """A was built in steps, B in one piece."""
    ctx.ev("states")
    a, b = static_view(cs, A), static_view(cs, B)
    ok = True
    for k in a:
        ok &= ctx.check(a[k] == b[k], k, lambda: d(what=k, stepwise=repr(a[k])[:1500], one_piece=repr(b[k])[:1500]))
    if not ok:
        return False
    a, b = defaults(A), defaults(B)
    for k in a:
        ok &= ctx.check(a[k] == b[k], "default", lambda: d(what=k, stepwise=repr(a[k])[:800], one_piece=repr(b[k])[:800]))
    for i, data in enumerate(datas):
        other = datas[(i + 1) % len(datas)]
        cuts = sorted({len(data) - 1, len(data) // 2, ctx.rng.randrange(len(data) + 1)} - {-1})
        a, b = use(A, data, other, cuts), use(B, data, other, cuts)
        for k in b:
            ok &= ctx.check(a.get(k) == b[k], "use", lambda: d(what=k, input=data.hex(), stepwise=repr(a.get(k))[:1200], one_piece=repr(b[k])[:1200]))
            if not ok:
                return False
    return ok


# ------------------------------------------------------------------------------------------------ building


class Spec:
    """Fields to build with, as arguments of Field."""

    def __init__(self, cs, name, args, union, align):
        self.cs, self.name, self.args, self.union, self.align = cs, name, args, union, align

    def base(self, n=0, comp=False):
        from dissect.cstruct import Field
        from dissect.cstruct import compiler

        make = self.cs._make_union if self.union else self.cs._make_struct
        T = make(self.name, [Field(a[0], a[1], bits=a[2], offset=a[3]) for a in self.args[:n]], align=self.align)
        return compiler.compile(T) if comp else T


def compositions(n):
    """All ways of cutting a sequence of n into non-empty segments."""
    for cuts in itertools.product((0, 1), repeat=max(0, n - 1)):
        out, cur = [], 1
        for c in cuts:
            if c:
                out.append(cur)
                cur = 1
            else:
                cur += 1
        if n:
            out.append(cur)
        yield out


class Boom(Exception):
    pass


def add_segment(T, args, style):
    from dissect.cstruct import Field

    if style == "single":
        for a in args:
            T.add_field(a[0], a[1], a[2], a[3])
    elif style == "batch":
        with T.start_update():
            for a in args:
                T.add_field(a[0], a[1], bits=a[2], offset=a[3])
    elif style == "nested":
        with T.start_update():
            with T.start_update():
                for a in args[:1]:
                    T.add_field(a[0], a[1], bits=a[2], offset=a[3])
            for a in args[1:]:
                T.add_field(a[0], a[1], bits=a[2], offset=a[3])
    elif style == "raising":
        try:
            with T.start_update():
                for a in args:
                    T.add_field(a[0], a[1], bits=a[2], offset=a[3])
                raise Boom
        except Boom:
            pass
    elif style == "commit":
        T.__fields__.extend(Field(a[0], a[1], bits=a[2], offset=a[3]) for a in args)
        T.commit()


STYLES = ("single", "batch", "nested", "raising", "commit")


def history(ctx, spec, start, cuts, styles, when, between, datas, d, reject=False):
    """Run one history; compare after every commit.  when: number of segments after which the class is compiled, None never."""
    from dissect.cstruct import compiler

    cs = spec.cs
    comp = when == 0
    T = call(spec.base, start, comp)
    if isinstance(T, Err):
        ctx.fail("rejected", d(step="start", raised=repr(T)))
        return False
    done = start
    for k, (n, style) in enumerate(zip(cuts, styles)):
        before = (T.size, T.alignment)
        ctx.ev("segment:" + style)
        r = call(add_segment, T, spec.args[done:done + n], style)
        done += n
        if isinstance(r, Err):
            one = call(spec.base, done, comp)
            if isinstance(one, Err) and one.name == r.name:
                return None
            ctx.fail("rejected", d(step=k, style=style, raised=repr(r), one_piece=repr(one)))
            return False
        if when == k + 1:
            compiler.compile(T)
            comp = True
        if before[0] is not None and T.size is None:
            ctx.ev("became_dynamic")
        if done > n and before[1] < T.alignment:
            ctx.ev("alignment_grew")
        if reject and not rejected(ctx, spec, T, done, comp, d):
            return False
        last = done == len(spec.args)
        if not last and not between:
            continue
        ctx.ev("final_states" if last else "intermediate_states")
        one = spec.base(done, comp)
        if not compare(ctx, cs, T, one, datas if last else [x[:max(0, len(x) - 1)] for x in datas[:1]] + datas[:1],
                       lambda **kw: d(start=start, cuts=cuts, styles=styles, compiled_after=when, fields_now=done, used_between=between, **kw)):
            return False
    return T


def rejected(ctx, spec, T, done, comp, d):
    """Additions that cannot be made leave the class as it was."""
    rng = ctx.rng
    cs = spec.cs
    names = [n for n in T.fields if n]
    kind = rng.choice(("duplicate", "straddle", "batch"))
    if kind == "duplicate" and names:
        r = call(T.add_field, rng.choice(names), cs.uint16)
    elif kind == "batch" and names:
        def run():
            with T.start_update():
                T.add_field("zz1", cs.uint32)
                T.add_field(rng.choice([*names, "zz1"]), cs.uint8)
                T.add_field("zz2", cs.uint8)

        r = call(run)
    else:
        kind = "straddle"
        r = call(T.add_field, "zz0", cs.uint8, rng.choice((9, 17)))
    if not ctx.check(isinstance(r, Err), "not-rejected", lambda: d(kind=kind)):
        return False
    ctx.ev("rejected_" + kind)
    one = spec.base(done, comp)
    a, b = static_view(cs, T), static_view(cs, one)
    for k in a:
        if not ctx.check(a[k] == b[k], "rejected-" + k, lambda: d(after="rejected " + kind, what=k, stepwise=repr(a[k])[:1000], one_piece=repr(b[k])[:1000])):
            return False
    return True


# ------------------------------------------------------------------------------------------------ exhaustive small space

POOL = [
    ("uint8 {};", "u8"), ("uint16 {};", "u16"), ("uint32 {};", "u32"), ("int24 {};", "i24"), ("uint64 {};", "u64"), ("char {}[3];", "chars"), ("char {};", "char"), ("uint8 {}:3;", "b3"),
    ("uint16 {}:5;", "w5"), ("E {}:4;", "e4"), ("uint8 {}[n];", "dyn"), ("char {}[];", "cstr"), ("uint16 {}[2];", "arr"), ("struct {{ uint8 {}; uint16 {}_2; }};", "anon"),
    ("union {{ uint16 {}; uint8 {}_2; }};", "anonu"), ("S {};", "st"), ("uint16 *{};", "ptr"), ("uleb128 {};", "leb"), ("float {};", "f"), ("void {};", "v"), ("E {};", "e"), ("wchar {}[2];", "w"),
    ("uint16 {}[];", "zarr"), ("S {}[2];", "sts"), ("D {};", "dst"),
]
HEAD = "enum E : uint8 { A, B = 5 };\nstruct S { uint8 p; uint16 q; };\nstruct D { uint8 m; uint8 x[m]; };\n"


def n_pairs():
    return len(POOL)


def pool_case(ctx, idx, align, comp_all):
    """All cuts of one sequence of pool fields, with a leading counter."""
    rng = ctx.rng
    names = [f"f{k}" for k in range(len(idx))]
    body = "uint8 n; " + " ".join(POOL[i][0].format(n, n) for i, n in zip(idx, names))
    text = HEAD + f"struct T {{ {body} }};"
    cs = cstruct(endian=rng.choice("<>"), pointer="uint32")
    r = call(cs.load, text, compiled=False, align=align)
    if isinstance(r, Err):
        return
    ref = cs.resolve("T")
    spec = Spec(cs, "T", [(f.name, f.type, f.bits, None) for f in ref.__fields__], False, align)
    n = len(spec.args)
    datas = [bytes([rng.choice((0, 1, 2, 3))]) + rng.randbytes(40).replace(b"\x80", b"\x01") for _ in range(2)] + [bytes(48)]
    if any(POOL[i][1] in ("b3", "w5", "e4") for i in idx[1:]) and POOL[idx[0]][1] in ("b3", "w5", "e4"):
        ctx.ev("grew_bits_run")
    if any(POOL[i][1].startswith("anon") for i in idx):
        ctx.ev("folded")
    ctx.ev("aligned" if align else "packed")

    def d(**kw):
        return {"definition": text, "align": align, "endian": cs.endian, **kw}

    hist = list(compositions(n))
    for cuts in hist:
        for when in (None, 0, rng.randint(1, len(cuts))) if comp_all else (rng.choice((None, 0, 0, rng.randint(1, len(cuts)))),):
            ctx.ev("never_compiled" if when is None else "compiled_first" if when == 0 else "compiled_last" if when == len(cuts) else "compiled_midway")
            styles = [rng.choice(STYLES) for _ in cuts]
            between = rng.random() < 0.6
            ctx.ev("used_between" if between else "unused_between")
            T = history(ctx, spec, 0, cuts, styles, when, between, datas[:2] if rng.random() < 0.8 else datas, d)
            if T is None or T is False:
                return
            ctx.key(body, align, cuts, styles, when, between, cs.endian)


def w_pairs(ctx, i):
    """Every sequence of two pool fields (after a counter): all cuts, both alignments, every compile time."""
    for j in range(len(POOL)):
        for align in (False, True):
            pool_case(ctx, (i, j), align, True)


def w_triples(ctx, i):
    """Sequences of three to five pool fields, all cuts."""
    rng = ctx.rng
    k = rng.choice((3, 3, 3, 4, 4, 5)) if ctx.thorough() else rng.choice((3, 3, 4))
    pool = range(len(POOL))
    if rng.random() < 0.4:
        pool = [x for x in pool if POOL[x][1] in ("b3", "w5", "e4", "u8", "u16", "u32", "dyn", "anon")]
    pool_case(ctx, [rng.choice(list(pool)) for _ in range(k)], rng.random() < 0.5, False)


# ------------------------------------------------------------------------------------------------ random programs


def w_random(ctx, i):
    """Random programs; the root is rebuilt by several histories."""
    rng = ctx.rng
    g = gen.Gen(rng, gen.Profile(depth=2, fields=(1, 9), bits=0.3, nested=0.25, union=0.15, dyn=0.35))
    if rng.random() < 0.3:
        g.cfg.consts = {"KA": rng.randrange(4), "KB": 2}
    root = g.program(union=rng.random() < 0.2)
    cfg = g.cfg
    if ctx.rng.random() < 0.25:
        root.name = rng.choice(("T_t", "_T", "self", "S0"))
    comp = rng.random() < 0.6
    r = call(lib.build, root, cfg, comp)
    if isinstance(r, Err):
        ctx.fail("definition-rejected", {**lib.describe(root, cfg), "raised": repr(r)})
        return
    cs, R = r
    datas = []
    for _ in range(3):
        x = gen.gen_data(rng, root, cfg)
        if x:
            datas.append(x[0])
    if not datas:
        datas = [rng.randbytes(60)]
    datas.append(datas[0] + rng.randbytes(5))
    spec = Spec(cs, root.name, [(f.name, f.type, f.bits, None) for f in R.__fields__], root.union, bool(root.align))
    n = len(spec.args)
    ctx.ev("aligned" if root.align else "packed")
    if root.union:
        ctx.ev("unions")
    if any(f.name is None for f in root.fields):
        ctx.ev("folded")

    def d(**kw):
        return {**lib.describe(root, cfg), "mode": mode_name(comp), **kw}

    for _ in range(3 if not ctx.thorough() else 6):
        start = rng.randint(0, n - 1) if rng.random() < 0.3 else 0
        left = n - start
        cuts = []
        while left:
            c = 1 if rng.random() < 0.5 else rng.randint(1, left)
            cuts.append(c)
            left -= c
        styles = [rng.choice(STYLES) for _ in cuts]
        when = (rng.choice((0, 0, len(cuts), rng.randint(0, len(cuts)))) if comp else None)
        if when is not None:
            ctx.ev("compiled_first" if when == 0 else "compiled_last" if when == len(cuts) else "compiled_midway")
        else:
            ctx.ev("never_compiled")
        between = rng.random() < 0.5
        ctx.ev("used_between" if between else "unused_between")
        T = history(ctx, spec, start, cuts, styles, when, between, datas, d, reject=rng.random() < 0.3)
        if T is None or T is False:
            return
        # against the class loaded from text, too
        if not compare(ctx, cs, T, R, datas[:2], lambda **kw: d(start=start, cuts=cuts, styles=styles, compiled_after=when, against="loaded from text", **kw)):
            return
        ctx.key(M.program_text(root, cfg.consts), bool(root.align), start, cuts, styles, when, between)
    ctx.sample({**lib.describe(root, cfg), "cuts": cuts, "styles": styles, "compiled_after": when})


def w_big(ctx, i):
    """Long arrays, very many fields or bit-fields, deep nesting, in a few segments."""
    rng = ctx.rng
    root, cfg = gen.big_program(rng, dynamic=rng.random() < 0.4, limit=3000)
    comp = rng.random() < 0.6
    r = call(lib.build, root, cfg, comp)
    if isinstance(r, Err):
        ctx.fail("definition-rejected", {**lib.describe(root, cfg), "raised": repr(r)})
        return
    cs, R = r
    x = gen.gen_data(rng, root, cfg)
    datas = [x[0] if x else rng.randbytes(100)]
    spec = Spec(cs, root.name, [(f.name, f.type, f.bits, None) for f in R.__fields__], False, bool(root.align))
    n = len(spec.args)
    marks = sorted({rng.randrange(n) for _ in range(rng.randint(1, 4))} | {n})
    cuts = [b - a for a, b in zip([0, *marks], marks) if b > a]
    styles = [rng.choice(STYLES) for _ in cuts]
    when = rng.choice((0, len(cuts), rng.randint(0, len(cuts)))) if comp else None
    ctx.ev("big_classes")

    def d(**kw):
        return {**lib.describe(root, cfg), "mode": mode_name(comp), **kw}

    T = history(ctx, spec, 0, cuts, styles, when, rng.random() < 0.5, datas, d)
    if T is None or T is False:
        return
    if compare(ctx, cs, T, R, datas, lambda **kw: d(cuts=cuts, styles=styles, compiled_after=when, against="loaded from text", **kw)):
        ctx.key("big", M.program_text(root), cuts, styles, when)


def w_offsets(ctx, i):
    """Fields at explicit offsets, in steps and in one piece."""
    rng = ctx.rng
    cs = cstruct(endian=rng.choice("<>"), pointer="uint16")
    cs.load("enum E : uint16 { A, B };\nstruct S { uint8 p; uint32 q; };\nstruct D { uint8 m; uint16 x[m]; };", align=rng.random() < 0.5)
    types = [cs.uint8, cs.uint16, cs.uint32, cs.uint64, cs.E, cs.S, cs.D, cs.char[4], cs.uint16[3], cs._make_pointer(cs.uint8), cs.char[None], cs.float]
    args = []
    pos = 0
    for k in range(rng.randint(2, 7)):
        bits = rng.randint(1, 8) if rng.random() < 0.3 else None
        t = rng.choice((cs.uint8, cs.uint8, cs.uint16, cs.E)) if bits else rng.choice(types)
        off = None
        if rng.random() < 0.4:
            off = rng.choice((pos, pos + rng.randint(1, 9), rng.randrange(0, 24)))
        args.append((f"f{k}", t, bits, off))
        try:
            pos = (off if off is not None else pos) + len(t)
        except TypeError:
            pos += 3
    union = rng.random() < 0.15
    align = rng.random() < 0.5
    spec = Spec(cs, "T", args, union, align)
    if isinstance(call(spec.base, len(args)), Err):
        return
    ctx.ev("manual_offsets")
    datas = [bytes([1, 0]) + rng.randbytes(70), rng.randbytes(72), bytes(72)]

    def d(**kw):
        return {"fields": [(a[0], a[1].__name__, a[2], a[3]) for a in args], "align": align, "union": union, "endian": cs.endian, **kw}

    for cuts in rng.sample(list(compositions(len(args))), min(4, 1 << (len(args) - 1))):
        styles = [rng.choice(STYLES) for _ in cuts]
        when = rng.choice((None, 0, rng.randint(1, len(cuts))))
        T = history(ctx, spec, 0, cuts, styles, when, rng.random() < 0.5, datas, d)
        if T is None or T is False:
            return
        ctx.key(repr(d()), cuts, styles, when)


# ------------------------------------------------------------------------------------------------ self reference


def with_self(ctx, g, root):
    """Put pointers to the root into it."""
    rng = ctx.rng
    n = 0
    for _ in range(rng.randint(1, 3)):
        k = rng.randrange(4)
        p = M.Pt(root)
        if k == 0:
            f = M.Fd(g.name("f"), p)
            ctx.ev("self_pointer")
        elif k == 1:
            f = M.Fd(g.name("f"), M.Ar(p, "n", rng.randint(1, 3)))
            ctx.ev("self_pointer_array")
        elif k == 2:
            sub = M.St(None, [M.Fd(g.name("f"), M.SC["uint8"]), M.Fd(g.name("f"), p)], rng.random() < 0.3, root.align, False)
            f = M.Fd(g.name("f") if rng.random() < 0.5 else None, sub)
            ctx.ev("self_pointer_nested")
        else:
            f = M.Fd(g.name("f"), M.Pt(p))
            ctx.ev("self_pointer")
        # never inside a run of bit-fields' unit or after an EOF array
        at = rng.randint(0, len(root.fields))
        if any(isinstance(x.t, M.Ar) and x.t.form == "eof" for x in root.fields):
            at = 0
        root.fields.insert(at, f)
        n += 1
    try:
        M.layout(root, g.cfg)
    except M.OutOfDomain:
        return False
    return True


def w_self(ctx, i):
    """Structures that point to themselves: layout and values against the model, dereference, incremental twin."""
    rng = ctx.rng
    g = gen.Gen(rng, gen.Profile(depth=1, fields=(1, 5), ptr=0.05, dyn=0.4, eof=0.02))
    g.cfg.ptr = M.SC[rng.choice(("uint8", "uint16", "uint32", "uint64"))]
    root = g.program(union=rng.random() < 0.12)
    if not with_self(ctx, g, root):
        return
    cfg = g.cfg
    comp = rng.random() < 0.5
    r = call(lib.build, root, cfg, comp)

    def d(**kw):
        return {**lib.describe(root, cfg), "mode": mode_name(comp), **kw}

    if isinstance(r, Err):
        ctx.fail("definition-rejected", d(raised=repr(r)))
        return
    cs, T = r
    size, al, offs = M.layout(root, cfg)
    ctx.check((T.size, T.alignment, bool(T.dynamic)) == (size, al, size is None), "self-layout", lambda: d(model=(size, al), got=(T.size, T.alignment, T.dynamic)))
    datas = []
    for _ in range(3):
        x = gen.gen_data(rng, root, cfg)
        if x is None:
            continue
        data, v, end, q = x
        datas.append(data)
        o = call(T, data)
        got = canon(root, o) if not isinstance(o, Err) else o
        if not ctx.check(got == v, "self-parse", lambda: d(input=data.hex(), model=repr(v), got=repr(got))):
            return
    if not datas:
        return
    # the same structure with pointers to another structure in place of those to itself: same reader kind
    other = M.St("Other", [M.Fd("o", M.SC["uint8"])], False, root.align, True)
    twin = M.St(root.name, [M.Fd(f.name, swap(f.t, root, other), f.bits) for f in root.fields], root.union, root.align, True)
    r2 = call(lib.build, twin, cfg, comp)
    if not isinstance(r2, Err):
        ctx.check(bool(r2[1].__compiled__) == bool(T.__compiled__), "compiled", lambda: d(with_itself=T.__compiled__, with_another=r2[1].__compiled__))
    # dereference
    img = bytearray(rng.randbytes(8))
    at = []
    for data in datas:
        at.append(len(img))
        img += data
    deref(ctx, T, bytes(img), at, d)
    # the same built in steps
    spec = SelfSpec(cs, root.name, T, root.union, bool(root.align))
    n = len(spec.args)
    cuts = rng.choice(list(compositions(n))) if n < 8 else [1] * n
    styles = [rng.choice(STYLES) for _ in cuts]
    ctx.ev("incremental_self")
    I = spec.grow(cuts, styles, comp)
    if isinstance(I, Err):
        ctx.fail("rejected", d(cuts=cuts, styles=styles, raised=repr(I)))
        return
    compare(ctx, cs, I, T, datas[:2], lambda **kw: d(cuts=cuts, styles=styles, self_reference=True, **kw))
    ctx.key(M.program_text(root, cfg.consts), bool(root.align), cuts, styles, comp)


def swap(t, root, other):
    if isinstance(t, M.Pt):
        return M.Pt(other if t.target is root else swap(t.target, root, other))
    if isinstance(t, M.Ar):
        return M.Ar(swap(t.elem, root, other), t.form, t.count, t.text)
    if isinstance(t, M.St) and not t.top:
        return M.St(t.name, [M.Fd(f.name, swap(f.t, root, other), f.bits) for f in t.fields], t.union, t.align, False)
    return t


class SelfSpec(Spec):
    """The fields of a self-referential class, with pointers that lead to the class under construction."""

    def __init__(self, cs, name, T, union, align):
        super().__init__(cs, name, [(f.name, f.type, f.bits, None) for f in T.__fields__], union, align)
        self.T = T

    def grow(self, cuts, styles, comp):
        I = self.base(0, comp)
        done = 0
        for n, style in zip(cuts, styles):
            r = call(add_segment, I, [(a[0], self.retarget(a[1], I), a[2], a[3]) for a in self.args[done:done + n]], style)
            if isinstance(r, Err):
                return r
            done += n
        return I

    def retarget(self, t, I):
        from dissect.cstruct.types import Array, Pointer

        if issubclass(t, Pointer):
            if t.type is self.T:
                return self.cs._make_pointer(I)
            x = self.retarget(t.type, I)
            return t if x is t.type else self.cs._make_pointer(x)
        if issubclass(t, Array):
            x = self.retarget(t.type, I)
            return t if x is t.type else self.cs._make_array(x, t.num_entries)
        return t


def deref(ctx, T, img, at, d):
    """Every self pointer made to point at a node yields what the class parses there."""
    from dissect.cstruct.types import Pointer

    for k, start in enumerate(at):
        s = io.BytesIO(img)
        s.seek(start)
        o = call(T._read, s)
        if isinstance(o, Err):
            continue
        for f in T.__fields__:
            v = getattr(o, f._name)
            for p in (v if isinstance(v, list) else [v]):
                if not (isinstance(p, Pointer) and p.__class__.type is T):
                    continue
                for target in (at[(k + 1) % len(at)], int(p) % 1000):
                    q = call(lambda: p + (target - int(p)))
                    if isinstance(q, Err) or int(q) != target or target == 0:
                        continue
                    got = call(q.dereference)
                    t = io.BytesIO(img)
                    t.seek(target)
                    want = call(T._read, t)
                    ctx.ev("self_dereferenced")
                    if not ctx.check(plain_or(got) == plain_or(want) and (isinstance(got, Err) or got.__class__ is T), "self-dereference",
                                     lambda: d(image=img.hex(), node=start, field=f._name, target=target, want=repr(want), got=repr(got))):
                        return


TREES = [
    # text, encoder of (payload, children)
    ("struct T {{ uint8 n; {e} v; T kids[n]; }};", lambda n, e: [n[0][:0], bytes([len(n[1])]) + n[0]] and bytes([len(n[1])]) + n[0] + b"".join(e(c, e) for c in n[1])),
    ("struct T {{ uint8 n; T kids[n]; {e} v; }};", lambda n, e: bytes([len(n[1])]) + b"".join(e(c, e) for c in n[1]) + n[0]),
    ("struct T {{ uint8 n; struct {{ uint8 tag; T kid; }} kids[n]; {e} v; }};", lambda n, e: bytes([len(n[1])]) + b"".join(bytes([7]) + e(c, e) for c in n[1]) + n[0]),
]


def w_trees(ctx, i):
    """Packed structures that contain arrays of themselves."""
    rng = ctx.rng
    text, enc = TREES[i % len(TREES)]
    e = rng.choice(("uint8", "uint16", "char", "uint32"))
    width = {"uint8": 1, "char": 1, "uint16": 2, "uint32": 4}[e]
    text = text.format(e=e)
    comp = bool(i // len(TREES) % 2)
    endian = rng.choice("<>")

    def tree(depth):
        return (rng.randbytes(width), [tree(depth - 1) for _ in range(rng.randint(0, 3) if depth else 0)])

    cs = cstruct(endian=endian)

    def d(**kw):
        return {"definition": text, "mode": mode_name(comp), "endian": endian, **kw}

    r = call(cs.load, text, compiled=comp)
    if isinstance(r, Err):
        ctx.fail("definition-rejected", d(raised=repr(r)))
        return
    T = cs.resolve("T")
    # built field by field from the class under construction
    for _ in range(4):
        t = tree(rng.randint(0, 3))
        data = enc(t, enc)

        def view(o):
            v = o.v
            return (v if isinstance(v, bytes) else int(v).to_bytes(width, "little" if endian == "<" else "big"), [view(getattr(k, "kid", k)) for k in o.kids])

        s = io.BytesIO(data + b"\x55" * 3)
        o = call(T, s)
        got = o if isinstance(o, Err) else call(view, o)
        ctx.ev("trees")
        if not ctx.check(got == t and s.tell() == len(data), "tree", lambda: d(input=data.hex(), expected=repr(t), got=repr(got), consumed=s.tell())):
            return
        ctx.check(call(o.dumps) == data, "tree-dump", lambda: d(input=data.hex(), got=repr(call(o.dumps))))
        if data:
            cut = rng.randrange(len(data))
            r = call(T, data[:cut])
            ctx.check(isinstance(r, Err) and r.isa(EOFError), "tree-short", lambda: d(input=data[:cut].hex(), got=repr(r)))
        ctx.key(text, comp, endian, data)
    ctx.check(T.size is None and bool(T.dynamic) and bool(T.__compiled__) == comp, "tree-layout", lambda: d(size=T.size, dynamic=T.dynamic, compiled=T.__compiled__))


WORKLOADS = {
    "big": (w_big, 120, 1600),
    "pairs": (w_pairs, n_pairs, n_pairs),
    "triples": (w_triples, 350, 12000),
    "random": (w_random, 500, 14000),
    "offsets": (w_offsets, 200, 5000),
    "self": (w_self, 400, 10000),
    "trees": (w_trees, 60, 1200),
}
EXHAUSTIVE = "all sequences of two of 25 field kinds after a counter, cut in all ways, packed and aligned, compiled never, first and later"
