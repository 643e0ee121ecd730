"""C09 stream discipline: start offsets, surroundings, input kinds, call forms and sequences of reads on one stream."""
from __future__ import annotations

import io
import mmap
import os
import shutil
import tempfile

from . import gen, lib
from . import model as M
from .boot import cstruct
from .common import (MODES, BytesIO, Err, Recorder, call, canon, count_features, ends_with_eof, load, mode_name, program, witness, dynunion_program)

PID = "C09"
ANCHORS = ["types/base.py", "types/structure.py", "cstruct.py"]
RULE = ("A case is a generated definition with an accepted input that is parsed at several start offsets behind different prefixes and in "
        "front of different suffixes, from every kind of input object and through every call form; or a history of reads of several types on "
        "one stream.  Value, stream position and per-field sizes are compared with the parse of the bytes on their own.  Non-trivial: at "
        "least one start offset other than 0 was compared; distinct by definition, configuration, input and offset.")
ASSUMPTIONS = ["aligned structures are driven at aligned offsets only", "streams are seekable"]
REQUIRED = ["big", "single", "named_reads", "offsets_nonzero", "suffixes", "kind:bytes", "kind:bytearray", "kind:memoryview", "kind:BytesIO", "kind:file", "kind:rawfile",
            "kind:mmap", "kind:minimal", "form:T.read", "form:T.reads", "form:cs.read", "sequence_reads", "sizes_compared", "dynamic_unions", "dynamic_programs",
            "feature:union", "feature:bits", "feature:aligned", "feature:arr0", "feature:arreof", "bare"]


class Minimal:
    """The smallest file-like object: read, seek and tell only."""

    def __init__(self, data, pos=0):
        self.d, self.p = bytes(data), pos

    def read(self, n=-1):
        n = len(self.d) - self.p if n is None or n < 0 else n
        b = self.d[self.p : self.p + n] if self.p <= len(self.d) else b""
        self.p += len(b)
        return b

    def seek(self, pos, whence=0):
        self.p = pos if whence == 0 else self.p + pos if whence == 1 else len(self.d) + pos
        return self.p

    def tell(self):
        return self.p


class Bytes(bytes):
    pass


class Kinds:
    """Every kind of input object over the same bytes; files live in a scratch directory."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="rv-c09-")
        self.open = []

    def close(self):
        for f in self.open:
            f.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, data):
        p = os.path.join(self.dir, f"f{len(self.open)}")
        with open(p, "wb") as fh:
            fh.write(data)
        return p

    def keep(self, f):
        self.open.append(f)
        return f

    def buffers(self, data):
        yield "bytes", bytes(data)
        yield "bytes subclass", Bytes(data)
        yield "bytearray", bytearray(data)
        yield "memoryview", memoryview(bytes(data))
        yield "memoryview of bytearray", memoryview(bytearray(data))
        if len(data) % 2 == 0 and data:
            yield "memoryview cast", memoryview(bytes(data)).cast("H")
        yield "memoryview slice", memoryview(b"\xAA\xBB\xCC" + bytes(data) + b"\xDD")[3 : 3 + len(data)]

    def streams(self, data, pos=0):
        for name, s in (("BytesIO", BytesIO(data)), ("minimal", Minimal(data)), ("recorder", Recorder(data)),
                        ("BufferedReader", io.BufferedReader(BytesIO(data))),
                        ("file", self.keep(open(self.path(data), "rb"))),
                        ("rawfile", self.keep(open(self.path(data), "rb", buffering=0))),
                        ("bufferedrandom", self.keep(open(self.path(data), "r+b")))):
            s.seek(pos)
            yield name, s
        if data:
            fh = self.keep(open(self.path(data), "rb"))
            m = self.keep(mmap.mmap(fh.fileno(), 0, access=mmap.ACCESS_READ))
            m.seek(pos)
            yield "mmap", m


def same(root, a, b):
    return not isinstance(a, Err) and not isinstance(b, Err) and canon(root, a) == canon(root, b)


def sizes_of(t, o):
    """The recorded sizes of a value and of the structures inside it."""
    out = []

    def rec(t, v):
        if isinstance(t, M.St):
            out.append(sorted((str(k), n) for k, n in v._sizes.items() if not str(k).startswith("__anonymous")))
            for f in t.fields:
                if f.name is not None and not f.bits:
                    rec(f.t, getattr(v, f.name))
        elif isinstance(t, M.Ar) and isinstance(v, list):
            for x in v:
                rec(t.elem, x)

    rec(t, o)
    return out


def offsets(rng, al):
    base = [al * k for k in range(1, 9)] + [al * rng.randrange(9, 200)]
    return rng.sample(base, 4)


def one(ctx, root, cfg, kinds):
    loaded = load(ctx, root, cfg)
    if loaded is None:
        return
    count_features(ctx, root)
    rng = ctx.rng
    d = gen.gen_data(rng, root, cfg)
    if d is None:
        return
    data, v, e, q = d
    eof = ends_with_eof(root)
    aligned = any(isinstance(x, M.St) and x.align for x in all_types(root))
    al = M.alignof(root, cfg) if aligned else 1
    for comp, (cs, T) in loaded.items():
        det = lambda **kw: witness(root, cfg, comp, data, **kw)  # noqa: E731
        s0 = BytesIO(data)
        o0 = call(T, s0)
        if isinstance(o0, Err):
            ctx.fail("parse-failed", det(raised=repr(o0)))
            continue
        ctx.check(canon(root, o0) == v and s0.tell() == e, "value-at-0", lambda: det(expected=repr(v), got=repr(o0), tell=s0.tell(), end=e))
        z0 = sizes_of(root, o0)
        # offsets, prefixes, suffixes
        for p in offsets(rng, al):
            for fill in ("rand", "zero", "ff"):
                pre = {"rand": rng.randbytes(p), "zero": bytes(p), "ff": b"\xff" * p}[fill]
                post = b"" if eof else rng.choice((b"", rng.randbytes(9), bytes(17), b"\xff" * 3))
                s = BytesIO(pre + data + post)
                s.seek(p)
                o = call(T, s)
                ctx.ev("offsets_nonzero")
                if post:
                    ctx.ev("suffixes")
                ctx.check(same(root, o, o0), "offset-value", lambda: det(offset=p, prefix=fill, suffix=post.hex(), got=repr(o), expected=repr(v)))
                ctx.check(s.tell() == p + e, "offset-position", lambda: det(offset=p, suffix=post.hex(), expected=p + e, got=s.tell()))
                if not isinstance(o, Err):
                    ctx.ev("sizes_compared")
                    ctx.check(sizes_of(root, o) == z0, "offset-sizes", lambda: det(offset=p, expected=repr(z0), got=repr(sizes_of(root, o))))
                    d1, d0 = call(o.dumps), call(o0.dumps)
                    ctx.check(d1 == d0 or isinstance(d1, Err) and isinstance(d0, Err) and d1.name == d0.name, "offset-dump", lambda: det(offset=p, got=repr(d1), expected=repr(d0)))
                if fill == "rand":
                    # the same through a stream positioned by reading instead of seeking
                    s = BytesIO(pre + data + post)
                    s.read(p)
                    o = call(T.read, s)
                    ctx.check(same(root, o, o0) and s.tell() == p + e, "offset-value", lambda: det(offset=p, how="read", got=repr(o)))
            ctx.key(M.program_text(root, cfg.consts), cfg.endian, comp, data, p)
        # suffix independence of buffers
        if not eof:
            for post in (rng.randbytes(5), b"\0" * 20, b"\xff" * 20):
                o = call(T, data + post)
                ctx.ev("suffixes")
                ctx.check(same(root, o, o0), "suffix-value", lambda: det(suffix=post.hex(), got=repr(o)))
        # kinds of input and call forms
        if not kinds:
            continue
        k = Kinds()
        try:
            for name, b in k.buffers(data):
                forms = {"T(x)": lambda b: T(b), "T.read": lambda b: T.read(b), "T.reads": lambda b: T.reads(b),
                         "cs.read": lambda b: cs.read(root.name, b), "cs.T(x)": lambda b: getattr(cs, root.name)(b)}
                for form, fn in forms.items():
                    o = call(fn, b)
                    ctx.ev("kind:" + name)
                    ctx.ev("form:" + form)
                    ctx.check(same(root, o, o0), "kind-value", lambda: det(kind=name, form=form, got=repr(o)))
            p = rng.choice((0, al, al * 3))
            pre = rng.randbytes(p)
            post = b"" if eof else rng.randbytes(rng.choice((0, 4)))
            for form, fn in (("T(x)", lambda s: T(s)), ("T.read", lambda s: T.read(s)), ("cs.read", lambda s: cs.read(root.name, s))):
                for name, s in k.streams(pre + data + post, p):
                    o = call(fn, s)
                    ctx.ev("kind:" + name)
                    ctx.ev("form:" + form)
                    # an mmap cannot be positioned past its end, where missing tail padding would be
                    if name == "mmap" and p + e > len(pre + data + post):
                        continue
                    ctx.check(same(root, o, o0), "kind-value", lambda: det(kind=name, form=form, offset=p, got=repr(o)))
                    ctx.check(s.tell() == p + e, "kind-position", lambda: det(kind=name, form=form, offset=p, expected=p + e, got=s.tell()))
        finally:
            k.close()
    ctx.sample(witness(root, cfg, data=data))


def all_types(root):
    out = []
    M.walk(root, lambda x, d: out.append(x))
    return out


PROFILES = [{}, {"align": True}, {"bits": 0.6}, {"array": 0.6, "dyn": 0.6, "leb": 0.1}, {"union": 0.6, "nested": 0.45, "depth": 3},
            {"nested": 0.5, "depth": 4, "align": True, "mixed_align": 0.3}, {"eof": 0.7}, {"ptr": 0.3, "enum": 0.3, "align": True},
            {"bits": 0.5, "align": True, "dyn": 0.6, "array": 0.4}, {"fields": (1, 2), "nested": 0.1, "bits": 0.1}]


def w_program(ctx, i):
    root, cfg = program(ctx, PROFILES[i % len(PROFILES)], root_kw={"union": True} if ctx.rng.random() < 0.08 else {})
    one(ctx, root, cfg, kinds=i % 3 == 0)


def w_big(ctx, i):
    """The same where one dimension is big: long arrays and strings, hundreds of fields, deep nesting, big unions."""
    ctx.ev("big")
    one(ctx, *gen.big_program(ctx.rng, limit=20000), kinds=i % 8 == 0)


def w_sequence(ctx, i):
    """Reads of several types on one stream, in order and with jumps, in both readers alternately."""
    rng = ctx.rng
    cfg = None
    items = []
    for k in range(rng.randint(2, 4)):
        root, cfg = program(ctx, {**PROFILES[(i + k) % 6], "eof": 0.0, "align": False, "mixed_align": 0.0}, consts=0.0) if cfg is None else (
            gen.Gen(rng, gen.Profile(**{**PROFILES[(i + k) % 6], "eof": 0.0, "align": False, "mixed_align": 0.0}), cfg).program(), cfg)
        loaded = load(ctx, root, cfg)
        if loaded is None:
            return
        items.append((root, loaded))
    for t in rng.sample(sorted(M.SC), 3):
        if M.SC[t].kind == "void":
            continue
        c = lib.new_cs(cfg)
        items.append((M.SC[t], {m: (c, c.resolve(t)) for m in MODES}))
        items.append((M.Ar(M.SC[t], "n", 3), {m: (c, c.resolve(t)[3]) for m in MODES}))
    img = bytearray(rng.randbytes(rng.randrange(0, 9)))
    plan = []
    for _ in range(rng.randint(3, 9)):
        t, loaded = rng.choice(items)
        d = gen.gen_data(rng, t, cfg)
        if d is None:
            continue
        data, v, e, q = d
        plan.append((len(img), t, loaded, v, e, data))
        img += data
    img += rng.randbytes(rng.randrange(0, 6))
    s = Recorder(bytes(img))
    order = list(range(len(plan)))
    if i % 2:
        order += [rng.randrange(len(plan)) for _ in range(4)] if plan else []
    pos = None
    for k in order:
        p, t, loaded, v, e, data = plan[k]
        comp = rng.random() < 0.5
        cs, T = loaded[comp]
        if pos != p:
            s.seek(p)
        o = call(T.read if rng.random() < 0.3 else T, s)
        pos = s.tell()
        got = call(M.canon, t, o) if not isinstance(o, Err) else o
        ctx.ev("sequence_reads")
        det = lambda **kw: {"type": M.program_text(t) if isinstance(t, M.St) else repr(t), "endian": cfg.endian, "mode": mode_name(comp),  # noqa: E731
                            "stream": bytes(img).hex(), "offset": p, "order": order, **kw}
        ctx.check(got == v, "sequence-value", lambda: det(expected=repr(v), got=repr(got)))
        ctx.check(pos == p + e, "sequence-position", lambda: det(expected=p + e, got=pos))
    ctx.key("sequence", bytes(img), order)


def w_bare(ctx, i):
    """Scalars, enums, pointers and arrays: every input kind and call form, with bytes before and after."""
    rng = ctx.rng
    names = [n for n, t in M.SC.items() if t.kind != "void"]
    n = names[i % len(names)]
    t = M.SC[n]
    cfg = M.Cfg(rng.choice("<>!=@"), M.SC[rng.choice(("uint32", "uint64", "uint24"))])
    cs = lib.new_cs(cfg)
    T = cs.resolve(n)
    cases = [(n, T, t), (None, T[1], M.Ar(t, "n", 1)), (None, T[4], M.Ar(t, "n", 4)), (None, T[3][2], M.Ar(M.Ar(t, "n", 3), "n", 2)),
             (None, T[0], M.Ar(t, "n", 0))]
    if t.kind != "float":
        cases.append((None, T[None], M.Ar(t, "0")))
    if t.kind in ("int", "leb"):
        en = M.En("EN", t, bool(i & 1), [("A", 1), ("B", 2)], [("A", "1"), ("B", "2")])
        cs.load(M.enum_text(en))
        cases += [("EN", cs.EN, en), (None, cs.EN[2], M.Ar(en, "n", 2)), (None, cs.EN[None], M.Ar(en, "0"))]
    cs.load("typedef uint16 *PP;")
    cases.append(("PP", cs.PP, M.Pt(M.SC["uint16"])))
    # a structure of one field is parsed like the field
    for k, (nm, X, m) in enumerate(list(cases[:6])):
        if isinstance(m, M.Ar) and isinstance(m.elem, M.Ar):
            continue
        st = M.St(f"ONE{k}", [M.Fd("x", m)], False, False)
        for comp in MODES:
            cs.load(M.struct_text(st).replace(st.name, f"{st.name}_{int(comp)}") + ";", compiled=comp)
            cases.append((f"{st.name}_{int(comp)}", cs.resolve(f"{st.name}_{int(comp)}"), st))
    kk = Kinds()
    try:
        for nm, X, m in cases:
            d = gen.gen_data(rng, m, cfg)
            if d is None:
                continue
            data, v, e, q = d
            det = lambda **kw: {"type": repr(m), "endian": cfg.endian, "input": data.hex(), "expected": repr(v), **kw}  # noqa: E731
            forms = {"T(x)": X, "T.read": X.read, "T.reads": X.reads}
            if nm:
                forms["cs.read"] = lambda b: cs.read(nm, b)
            for post in (b"", b"\x00", rng.randbytes(3)):
                for kind, b in kk.buffers(data + post):
                    for form, fn in forms.items():
                        o = call(fn, b)
                        ctx.ev("kind:" + kind)
                        ctx.ev("form:" + form)
                        ctx.ev("bare")
                        ctx.check(not isinstance(o, Err) and call(M.canon, m, o) == v, "bare-kind",
                                  lambda: det(kind=kind, form=form, suffix=post.hex(), got=repr(o)))
            p = rng.randrange(1, 40)
            img = rng.randbytes(p) + data + rng.randbytes(2)
            for kind, s in kk.streams(img, p):
                form = rng.choice([f for f in forms if f != "T.reads"])
                o = call(forms[form], s)
                ctx.ev("kind:" + kind)
                ctx.ev("form:" + form)
                ctx.ev("bare")
                ctx.check(not isinstance(o, Err) and call(M.canon, m, o) == v and s.tell() == p + e, "bare-stream",
                          lambda: det(kind=kind, form=form, offset=p, got=repr(o), tell=s.tell(), end=p + e))
            ctx.key("bare", repr(m), cfg.endian, data)
    finally:
        kk.close()


def w_names(ctx, i):
    """All call forms agree on what a name means, also after that changed: aliases, alias chains, replaced and extended types."""
    rng = ctx.rng
    cs = cstruct(endian=rng.choice("<>!=@"), pointer="uint32")
    cs.load("struct s0 { uint8 a; }; struct s1 { uint16 a; uint8 b; }; enum e0 : uint16 { A = 1 }; union u0 { uint16 a; uint8 b[2]; };",
            compiled=bool(i & 1))
    targets = ["s0", "s1", "e0", "u0", "uint8", "uint24", "int64", "wchar", "unsigned int"]
    names = ["n0", "n1", "n2"]
    log = []
    for n in names:
        t = rng.choice(targets)
        cs.add_type(n, rng.choice((t, cs.resolve(t))))
        log.append(("add", n, t))
    for step in range(14):
        k = rng.random()
        if k < 0.3:
            n, t = rng.choice(names), rng.choice(targets)
            cs.add_type(n, rng.choice((t, cs.resolve(t))), replace=True)
            log.append(("replace", n, t))
        elif k < 0.4:
            n = rng.choice(("s0", "s1"))
            cs.resolve(n).add_field(f"x{step}", cs.resolve(rng.choice(("uint8", "uint16", "uint32"))))
            log.append(("extend", n))
        elif k < 0.5:
            cs.endian = rng.choice("<>!=@")
            log.append(("endian", cs.endian))
        elif k < 0.6:
            n = names[0] if len(names) > 5 else f"m{step}"
            t = rng.choice(names)
            cs.add_type(n, t) if n not in names else None
            names = [*names, n] if n not in names else names
            log.append(("alias", n, t))
        n = rng.choice((*names, *targets[:4]))
        T = cs.resolve(n)
        data = bytes(rng.randrange(1, 0x60) for _ in range(40))
        want = call(T.reads, data)
        size = len(T)
        p = rng.randrange(0, 9)
        stream = BytesIO(bytes(p) + data)
        stream.seek(p)
        forms = {"cs.read": lambda: cs.read(n, data), "cs.read(stream)": lambda: cs.read(n, stream), "T(x)": lambda: T(data),
                 "T.read": lambda: T.read(BytesIO(data))}
        if n.isidentifier():
            forms["cs.name"] = lambda: getattr(cs, n)(data)
            forms["cs.name.read"] = lambda: getattr(cs, n).read(data)
        # the value in terms of the type's own description
        for form, fn in forms.items():
            o = call(fn)
            ctx.ev("named_reads")
            ctx.check(not isinstance(o, Err) and type(o) is type(want) and o == want and getattr(o, "dumps", bytes)() == getattr(want, "dumps", bytes)(),
                      "names-differ", lambda: {"history": log[-12:], "name": n, "form": form, "T.reads": repr(want), "got": repr(o), "input": data.hex()})
        ctx.check(stream.tell() == p + size, "names-position", lambda: {"history": log[-12:], "name": n, "tell": stream.tell() - p, "size": size})
    ctx.key("names", log)


def w_dynprogram(ctx, i):
    """Definitions with unions of data-dependent size: as long as their longest member."""
    r = dynunion_program(ctx)
    if r is not None:
        ctx.ev("dynamic_programs")
        one(ctx, *r, kinds=i % 6 == 0)


DYN = """
union du1 {{ uint8 n; char s[]; uint16 w; }};
union du2 {{ struct {{ uint8 n; uint8 d[n]; }} a; uint32 x; }};
union du3 {{ uleb128 l; uint8 b[3]; struct {{ uint8 k; wchar z[]; }} c; }};
struct D {{ uint8 t0; {u} u; uint8 t1; }};
"""


def w_dynunion(ctx, i):
    """Unions of data-dependent size: the same members at every start offset (their extent is not judged)."""
    rng = ctx.rng
    u = ("du1", "du2", "du3")[i % 3]
    e = rng.choice("<>!=@")
    for comp in MODES:
        cs = cstruct(endian=e)
        cs.load(DYN.format(u=u), compiled=comp)
        data = bytes([rng.randrange(1, 4)]) + bytes(rng.choice((1, 2, 3)) for _ in range(2)) + bytes(rng.choice((1, 2, 3, 0x41)) for _ in range(4)) + bytes(40)
        for name in (u, "D"):
            T = cs.resolve(name)
            s = BytesIO(data)
            o0 = call(T, s)
            end = s.tell()
            if isinstance(o0, Err):
                ctx.fail("dynamic-union-parse", {"definition": DYN.format(u=u), "type": name, "input": data.hex(), "raised": repr(o0)})
                continue
            for p in (1, 2, 3, 7, 16, rng.randrange(17, 99)):
                s = BytesIO(rng.randbytes(p) + data)
                s.seek(p)
                o = call(T, s)
                ctx.ev("dynamic_unions")
                ctx.ev("offsets_nonzero")
                ctx.check(not isinstance(o, Err) and repr(o) == repr(o0) and s.tell() == p + end, "dynamic-union-offset", lambda: {
                    "definition": DYN.format(u=u), "type": name, "mode": mode_name(comp), "endian": e, "input": data.hex(), "offset": p,
                    "at_0": repr(o0), "got": repr(o), "tell": s.tell() - p, "expected_tell": end})
        ctx.key("dynunion", u, e, comp, data)


SINGLE = ["char a;", "char a[{n}];", "char a[{n}][2];", "char a : {b};", "char a[];", "char a[EOF];", "uint8 a;", "uint8 a[{n}];", "wchar a[{n}];", "E a;", "E a : {b};",
          "struct {{ char x[{n}]; }} a;", "struct {{ char x[{n}]; }};", "union {{ char x[{n}]; uint8 y[{n}]; }} a;", "union {{ char x; }};", "char *a;", "C4 a;", "S4 a;"]


def w_single(ctx, i):
    """Structures and unions of one field (placed by hand too): bytes given to the type are parsed like the same bytes in a stream."""
    from dissect.cstruct import Field

    rng = ctx.rng
    n, b = rng.randrange(0, 9), rng.randrange(1, 9)
    decl = SINGLE[i % len(SINGLE)].format(n=n, b=b)
    kind = "union" if rng.random() < 0.25 and ":" not in decl else "struct"
    align = rng.random() < 0.4
    how = rng.choice(("load", "load", "api", "placed"))
    head = "enum E : uint8 { A = 1, B = 2 }; typedef char C4[4]; struct S4 { char v[4]; };\n"
    for comp in MODES:
        cs = cstruct(endian=rng.choice("<>!=@"), pointer="uint16")
        r = call(cs.load, head + f"{kind} R {{ {decl} }};", align=align, compiled=comp)
        w = lambda **kw: {"definition": f"{kind} R {{ {decl} }};", "align": align, "mode": mode_name(comp), "how": how, **kw}  # noqa: E731
        if isinstance(r, Err):
            ctx.fail("single-rejected", w(raised=repr(r)))
            return
        T = cs.R
        off = 0
        if how != "load" and kind == "struct":
            F = T.__fields__[0]
            off = rng.randrange(0, 6) if how == "placed" and not F.bits else 0
            T = call(cs._make_struct, "R2", [Field(F.name, F.type, bits=F.bits, offset=off or None)], align=align and not off)
            if isinstance(T, Err):
                ctx.fail("single-rejected", w(raised=repr(T)))
                return
        eof = "EOF" in decl
        want_len = T.size if T.size is not None else 6
        for length in sorted({0, 1, max(0, want_len - 1), want_len, want_len + 1, want_len + rng.randrange(2, 40), n, n + off}):
            data = bytes(rng.choice((0, 1, 2, 0x41, 0x42, 0xFF)) for _ in range(length))
            if "[];" in decl and length:
                data = data[:-1] + b"\0"
            s = BytesIO(data)
            ref = call(T, s)
            end = s.tell()
            forms = {"bytes": lambda: T(data), "bytes subclass": lambda: T(Bytes(data)), "bytearray": lambda: T(bytearray(data)), "memoryview": lambda: T(memoryview(data)),
                     "reads": lambda: T.reads(data), "read(bytes)": lambda: T.read(data), "read(stream)": lambda: T.read(BytesIO(data)), "minimal": lambda: T(Minimal(data)),
                     "array": lambda: T[1](data)[0]}
            p = rng.randrange(1, 9) if not align else 8
            s2 = BytesIO(rng.randbytes(p) + data)
            s2.seek(p)
            forms["at an offset"] = lambda: T(s2)
            for form, fn in forms.items():
                o = call(fn)
                ctx.ev("single")
                det = lambda **kw: w(form=form, input=data.hex(), placed_at=off, stream=repr(ref), got=repr(o), **kw)  # noqa: E731
                if isinstance(ref, Err) or isinstance(o, Err):
                    ctx.check(isinstance(ref, Err) and isinstance(o, Err) and o.name == ref.name, "single-differ", det)
                    continue
                ctx.check(o == ref and repr(o) == repr(ref) and type(o) is type(ref), "single-differ", det)
                so, sr = (sorted((str(k), v) for k, v in x._sizes.items()) for x in (o, ref))
                ctx.check(so == sr, "single-sizes", lambda: det(sizes=so, expected=sr))
                if not eof:
                    bo, br = call(o.dumps), call(ref.dumps)
                    ctx.check(bo == br if not isinstance(br, Err) else isinstance(bo, Err), "single-dump", lambda: det(dump=repr(bo), expected=repr(br)))
            if not isinstance(ref, Err):
                ctx.check(s2.tell() == p + end, "single-position", lambda: w(input=data.hex(), end=end, got=s2.tell() - p))
    ctx.key("single", decl, kind, align, how, off)


WORKLOADS = {
    "single": (w_single, 30 * len(SINGLE), 400 * len(SINGLE)),
    "big": (w_big, 100, 2000),
    "program": (w_program, 1500, 25000),
    "sequence": (w_sequence, 500, 8000),
    "bare": (w_bare, 4 * 20, 50 * 20),
    "names": (w_names, 150, 3000),
    "dynprogram": (w_dynprogram, 700, 12000),
    "dynunion": (w_dynunion, 60, 600),
}
