"""C16 pointers: every pointer of a parsed value is dereferenced on recording streams and compared with a direct parse and the model."""
from __future__ import annotations

import io
import operator
import os
import tempfile

from dissect.cstruct.exceptions import NullPointerDereference

from . import gen, lib
from . import model as M
from .boot import cstruct
from .common import MODES, Err, Recorder, call, canon, has_pointer, load, mode_name

PID = "C16"
ANCHORS = ["types/pointer.py", "cstruct.py", "compiler.py"]
RULE = ("A case is an image: a value of a generated definition full of pointers (fields, arrays, unions, nested and folded structures, targets with "
        "pointers of their own, lists) at some offset, with targets at chosen addresses, garbage between them, null, dangling and truncating "
        "addresses, below and above 2**31/2**63, on in-memory, recording, buffered, raw, and sparse file-like streams.  Every pointer met is compared as number, "
        "dereferenced twice, offset by arithmetic and written back; position and outcome are recorded after each step.  Non-trivial: at least one pointer was "
        "judged; distinct by definition, image and mode.")
ASSUMPTIONS = ["the memory behind a pointer does not change between parsing and dereferencing", "pointer arithmetic is judged for non-negative results",
               "the value a void pointer refers to is not specified"]
REQUIRED = ["pointers", "derefs", "null", "deref_errors", "char_strings", "repeat", "arithmetic", "no_stream", "unmoved", "struct_targets", "pointer_targets", "array_targets",
            "enum_targets", "scalar_targets", "wide_addresses", "in_union", "in_array", "dumped", "dumped_moved", "width:1", "width:2", "width:3", "width:4", "width:6", "width:8",
            "mode:compiled", "mode:interpreted", "stream:bytes", "stream:recorder", "stream:file", "stream:raw", "stream:sparse", "read_faults", "attributes", "list_nodes",
            "layouts", "sequences", "context_targets", "big_targets"]


class Sparse:
    """A file-like object whose bytes live at [base, base + len): what is below reads as zeros, it may lie anywhere in 2**64."""

    def __init__(self, data, base):
        self.d, self.base, self.p = data, base, 0

    def read(self, n=-1):
        lo, end = self.p, self.base + len(self.d)
        if n is None or n < 0:
            n = max(0, end - lo)
            if n > 1 << 20:
                n = 1 << 20
        n = max(0, min(n, end - lo))
        hi = lo + n
        zeros = max(0, min(hi, self.base) - lo)
        if zeros > 1 << 20:
            raise OSError("too much")
        a = max(lo, self.base) - self.base
        b = max(hi, self.base) - self.base
        self.p = hi
        return bytes(zeros) + self.d[a:b]

    def seek(self, p, whence=0):
        p = int(p)
        if whence == 1:
            p += self.p
        elif whence == 2:
            p += self.base + len(self.d)
        if p < 0:
            raise OSError("negative seek")
        self.p = p
        return p

    def tell(self):
        return self.p


class Memory(gen.Src):
    """Bytes for the reference parser in generate mode; pointer values refer to places that it fills with suitable targets."""

    def __init__(self, rng, cfg, base, room):
        super().__init__(rng, cfg)
        self.img = bytearray()
        self.base, self.room = base, room
        self.depth = 0
        self.places = []

    def scalar(self, t, cfg, hint=None):
        if hint is not None and hint[0] == "ptr":
            return M.enc_int(self.address(hint[1], t.size), t.size, cfg.order, False)
        return super().scalar(t, cfg, hint)

    def address(self, target, width):
        rng = self.rng
        top = (1 << width * 8) - 1
        x = rng.random()
        if x < 0.12:
            return 0
        if x < 0.2:
            return rng.choice((top, top - rng.randrange(64), 1 << (width * 8 - 1), rng.getrandbits(width * 8)))
        if x < 0.35 or self.depth > 3:
            a = self.base + rng.randrange(self.room + 8)
        elif x < 0.45 and self.places:
            a = self.base + rng.choice(self.places)
        else:
            a = self.plant(target)
        return a if 0 <= a <= top else rng.getrandbits(width * 8)

    def plant(self, target):
        rng = self.rng
        self.depth += 1
        if isinstance(target, M.Sc) and target.kind == "char":
            b = bytes(rng.choice(b"abc\xff\x80 ") for _ in range(rng.randrange(6))) + b"\x00"
        else:
            p = M.Parser(self.cfg, b"", self)
            try:
                p.parse(target, 0)
                b = bytes(p.data)
            except (M.OutOfDomain, M.Short):
                b = b""
        self.depth -= 1
        self.img += rng.randbytes(rng.choice((0, 0, 1, 2, 3, 7)))
        if len(self.img) + len(b) > self.room:
            return self.base + rng.randrange(max(1, self.room))
        a = len(self.img)
        self.img += b
        self.places.append(a)
        return self.base + a


class BigMemory(Memory):
    """Long strings."""

    def plant(self, target):
        if isinstance(target, M.Sc) and target.kind == "char":
            n = self.rng.choice(gen.LENGTHS)
            self.img += self.rng.randbytes(self.rng.randrange(4))
            a = len(self.img)
            self.img += self.rng.choice((b"ab", b"\xff", b"\x01\x02\x03")) * (n // 2) + b"z" * self.rng.randrange(3) + b"\x00"
            return self.base + a
        return super().plant(target)


class PGen(gen.Gen):
    """Definitions with every kind of pointer target."""

    def pointer(self):
        r = self.rng
        x = r.random()
        if x < 0.2:
            t = M.SC["char"]
        elif x < 0.3:
            t = M.SC[r.choice(("wchar", "float", "double", "void", "uleb128", "int24", "uint48", "uint128", "float16", "ileb128"))]
        elif x < 0.42:
            t = self.enum()
        elif x < 0.7 and len(self.structs) < 5 and not getattr(self, "busy", False):
            self.busy = True
            t = self.struct(1, allow_anon=False, top=True, union=r.random() < 0.15)
            self.busy = False
        elif x < 0.85 and self.structs:
            t = r.choice(self.structs)
        else:
            t = M.SC[self.int_name()]
        t = M.Pt(t)
        while r.random() < 0.2:
            t = M.Pt(t)
        return t


def open_stream(ctx, kind, image, base):
    """(stream, closer)"""
    if kind == "bytes":
        return io.BytesIO(image), None
    if kind == "recorder":
        return Recorder(image), None
    if kind == "sparse":
        return Sparse(image, base), None
    fd, path = tempfile.mkstemp(prefix="rv-c16-")
    os.write(fd, image)
    os.close(fd)
    s = open(path, "rb", buffering=0 if kind == "raw" else -1)  # noqa: SIM115

    def close():
        s.close()
        os.unlink(path)

    return s, close


ARITH = [("+", operator.add), ("-", operator.sub), ("*", operator.mul), ("//", operator.floordiv), ("%", operator.mod), ("**", operator.pow), ("<<", operator.lshift),
         (">>", operator.rshift), ("&", operator.and_), ("^", operator.xor), ("|", operator.or_)]


class Judge:
    """Follows the pointers of a value parsed from one stream."""

    def __init__(self, ctx, cfg, image, base, stream, fresh, describe):
        self.ctx, self.cfg, self.image, self.base, self.stream, self.fresh, self.d = ctx, cfg, image, base, stream, fresh, describe
        self.budget = 60
        # what a seek of such a stream can reach (beyond it a dereference only has to fail cleanly)
        self.beyond = 1 << 80 if isinstance(stream, Sparse) else 1 << 63 if isinstance(stream, io.BytesIO) else 1 << 40

    def expected(self, target, addr):
        """The value at an absolute address by the model, Err-like 'short', or None when it has no opinion."""
        a = addr - self.base
        if a < 0:
            return None
        if isinstance(target, M.Sc) and target.kind == "char":
            if a >= len(self.image):
                return "short"
            e = self.image.find(b"\x00", a)
            return "short" if e < 0 else ("value", self.image[a:e])
        p = M.Parser(self.cfg, self.image)
        try:
            v, _ = p.parse(target, a)
        except M.Short:
            return "short"
        except (M.OutOfDomain, M.NonCanon):
            return None
        return None if p.noncanon else ("value", v)

    def direct(self, target, TT, addr):
        """What parsing the target type there returns."""
        s = self.fresh()
        r = call(s.seek, addr)
        if isinstance(r, Err):
            return r
        T = TT[None] if isinstance(target, M.Sc) and target.kind == "char" else TT
        return call(T.read, s)

    def shape(self, target):
        return M.Ar(target, "0") if isinstance(target, M.Sc) and target.kind == "char" else target

    def same(self, target, a, b):
        if isinstance(a, Err) or isinstance(b, Err):
            return isinstance(a, Err) and isinstance(b, Err) and a.name == b.name
        t = self.shape(target)
        return self.eq(t, a, b)

    def eq(self, t, a, b):
        x, y = canon(t, a), canon(t, b)
        return repr(x) == repr(y) and (type(a) is type(b) or isinstance(t, M.Ar) and isinstance(a, bytes))

    def pointer(self, t, PT, p, want, where, depth):
        ctx = self.ctx
        if self.budget <= 0:
            return
        self.budget -= 1
        ev = ctx.ev
        ev("pointers")
        target = t.target

        def d(**kw):
            return {**self.d(), "pointer": where, "value": hex(want), **kw}

        TT = PT.type
        if not ctx.check(isinstance(p, PT) and int(p) == want, "value", lambda: d(got=repr(p), type=type(p).__name__)):
            return
        s = self.stream
        if ctx.rng.random() < 0.3:
            s.seek(ctx.rng.randrange(len(self.image) + 5) + (self.base if ctx.rng.random() < 0.5 else 0))
        pos = s.tell()
        if want == 0:
            ev("null")
            for what, fn in (("dereference", lambda: p.dereference()), ("str", lambda: str(p)), ("attribute", lambda: p.some_name)):
                r = call(fn)
                ctx.check(isinstance(r, Err) and r.isa(NullPointerDereference), "null-dereference", lambda: d(how=what, got=repr(r)))
            ctx.check(s.tell() == pos, "moved", lambda: d(before=pos, after=s.tell()))
            return
        if isinstance(target, M.Sc) and target.kind == "void":
            call(p.dereference)
            ctx.check(s.tell() == pos, "moved", lambda: d(before=pos, after=s.tell()))
            self.arithmetic(t, PT, p, want, d, None)
            return
        if want >= self.beyond:
            # no such position in a file: fails, and leaves the position alone
            r = call(p.dereference)
            ctx.check((isinstance(r, Err) or not M.sizeof(target, self.cfg)) and s.tell() == pos, "beyond", lambda: d(got=repr(r), before=pos, after=s.tell()))
            return
        got = call(p.dereference)
        ev("derefs")
        if want >= 1 << 31:
            ev("wide_addresses")
        ev("unmoved")
        ctx.check(s.tell() == pos, "moved", lambda: d(before=pos, after=s.tell(), got=repr(got)))
        ref = self.direct(target, TT, want)
        if not ctx.check(self.same(target, got, ref), "differs-from-direct-parse", lambda: d(direct=repr(ref), got=repr(got))):
            return
        exp = self.expected(target, want)
        if exp == "short":
            ctx.check(isinstance(got, Err), "value-from-missing-bytes", lambda: d(got=repr(got)))
        elif exp is not None and not isinstance(got, Err):
            c = canon(self.shape(target), got)
            ctx.check(c == exp[1], "target-value", lambda: d(expected=repr(exp[1]), got=repr(c)))
        elif exp is not None:
            # an error is only right when there is something wrong (bytes missing inside an aligned tail)
            ctx.check(got.isa(EOFError), "target-raises", lambda: d(expected=repr(exp[1]), got=repr(got)))
        # again, from another position
        if ctx.rng.random() < 0.5:
            pos = ctx.rng.randrange(len(self.image) + 1)
            s.seek(pos)
        again = call(p.dereference)
        ev("repeat")
        ctx.check(self.same(target, got, again) and s.tell() == pos, "not-stable", lambda: d(first=repr(got), second=repr(again), before=pos, after=s.tell()))
        if isinstance(got, Err):
            ev("deref_errors")
        elif isinstance(target, M.Sc) and target.kind == "char":
            ev("char_strings")
            ctx.check(call(str, p) == str(got), "str", lambda: d(expected=str(got), got=repr(call(str, p))))
        elif isinstance(target, M.St):
            ev("struct_targets")
            for f in target.fields:
                if f.name is not None and not f.name.startswith("_"):
                    a, b = call(getattr, p, f.name), call(getattr, got, f.name)
                    ev("attributes")
                    if not f.bits and not isinstance(a, Err) and not isinstance(b, Err):
                        ctx.check(repr(canon(f.t, a)) == repr(canon(f.t, b)), "attribute", lambda: d(attr=f.name, expected=repr(b), got=repr(a)))
                    else:
                        ctx.check(repr(a) == repr(b), "attribute", lambda: d(attr=f.name, expected=repr(b), got=repr(a)))
            ctx.check(s.tell() == pos, "moved", lambda: d(before=pos, after=s.tell(), what="attributes"))
        elif isinstance(target, M.Pt):
            ev("pointer_targets")
        elif isinstance(target, M.Ar):
            ev("array_targets")
        elif isinstance(target, M.En):
            ev("enum_targets")
        else:
            ev("scalar_targets")
        self.arithmetic(t, PT, p, want, d, got)
        if not isinstance(got, Err) and depth < 4:
            v = canon(self.shape(target), got)
            if not isinstance(v, Err):
                self.walk(target, TT, got, v, f"*({where})", depth + 1)

    def arithmetic(self, t, PT, p, want, d, got):
        ctx, rng, s = self.ctx, self.ctx.rng, self.stream
        for _ in range(2):
            name, fn = rng.choice(ARITH)
            if name in ("+", "-") or want > 1 << 20 and name in ("*", "<<", "**"):
                name, fn = rng.choice(ARITH[:2])
                k = rng.choice((0, 1, 2, 3, 4, 8, rng.randrange(200)))
            elif name in ("**", "<<"):
                k = rng.randrange(3)
            else:
                k = rng.choice((1, 2, 3, 0xFF, rng.randrange(1, 1 << 16)))
            w = fn(want, k)
            if w < 0:
                continue
            pos = s.tell()
            if rng.random() < 0.3:
                q = call(lambda: {"+": operator.iadd, "-": operator.isub}.get(name, fn)(p, k))
            else:
                q = call(fn, p, k)
            ctx.ev("arithmetic")
            if not ctx.check(type(q) is type(p) and int(q) == w, "arithmetic", lambda: d(op=f"{name} {k}", got=repr(q), type=type(q).__name__, expected=hex(w))):
                continue
            if isinstance(t.target, M.Sc) and t.target.kind == "void":
                continue
            r = call(q.dereference)
            if w == 0:
                ctx.check(isinstance(r, Err) and r.isa(NullPointerDereference), "null-dereference", lambda: d(op=f"{name} {k}", got=repr(r)))
            elif w < self.beyond:
                ref = self.direct(t.target, PT.type, w)
                ctx.check(self.same(t.target, r, ref), "arithmetic-dereference", lambda: d(op=f"{name} {k}", direct=repr(ref), got=repr(r)))
            ctx.check(s.tell() == pos, "moved", lambda: d(before=pos, after=s.tell(), op=f"{name} {k}"))
            if got is not None:
                a = call(p.dereference)
                ctx.check(int(p) == want and self.same(t.target, a, got), "arithmetic-changed-operand", lambda: d(op=f"{name} {k}", before=repr(got), now=repr(a)))

    def walk(self, t, T, v, want, where, depth=0):
        """Every pointer inside value v of model type t / library type T whose canonical value is `want`."""
        if isinstance(t, M.Pt):
            self.pointer(t, T, v, want, where, depth)
        elif isinstance(t, M.Ar):
            if isinstance(t.elem, (M.Pt, M.Ar, M.St)):
                for i, (x, w) in enumerate(zip(v, want)):
                    if i > 4:
                        break
                    if isinstance(t.elem, M.Pt):
                        self.ctx.ev("in_array")
                    self.walk(t.elem, T.type, x, w, f"{where}[{i}]", depth)
        elif isinstance(t, M.St):
            for f, F in zip(t.fields, T.__fields__):
                if f.name is None:
                    self.walk(f.t, F.type, v, want, where, depth)
                elif not f.bits:
                    if t.union and isinstance(f.t, M.Pt):
                        self.ctx.ev("in_union")
                    self.walk(f.t, F.type, getattr(v, f.name), want[f.name], f"{where}.{f.name}", depth)


STREAMS = ("bytes", "bytes", "recorder", "recorder", "file", "raw", "sparse", "sparse", "sparse")


def setting(ctx):
    rng = ctx.rng
    w = rng.choice(gen.PTRS)
    cfg = M.Cfg(rng.choice("<<>>!=@"), M.SC[w])
    width = cfg.ptr.size
    ctx.ev(f"width:{width}")
    kind = rng.choice(STREAMS)
    ctx.ev("stream:" + kind)
    base = 0
    room = min(200, (1 << width * 8) - 60) if width == 1 else rng.choice((60, 200, 600))
    if kind == "sparse":
        top = (1 << width * 8) - 1 - room - 300
        if top > 0:
            base = rng.choice((0, top, (1 << width * 8 - 1) - rng.randrange(1, 64), rng.randrange(top + 1), rng.randrange(top + 1)))
            base = max(0, min(base, top))
            base &= ~63       # aligned definitions are judged at aligned places
    return cfg, kind, base, room


def w_random(ctx, i):
    rng = ctx.rng
    cfg, kind, base, room = setting(ctx)
    g = PGen(rng, gen.Profile(depth=2, fields=(1, 6), ptr=0.55, nested=0.3, anon=0.3, array=0.35, dyn=0.4, union=0.15, bits=0.15, enum=0.08, eof=0.03, multidim=0.2), cfg)
    root = g.struct(2, top=True, root=True)
    mem = Memory(rng, cfg, base, room)
    p = M.Parser(cfg, b"", mem)
    try:
        p.parse(root, 0)
    except (M.OutOfDomain, M.Short):
        return
    mem.img += rng.randbytes(rng.randrange(4))
    lead = -len(mem.img) % 64
    image = bytes(mem.img) + rng.randbytes(lead)
    at = len(image)
    image += bytes(p.data)
    if rng.random() < 0.5:
        image += rng.randbytes(rng.randrange(24))
    try:
        q = M.Parser(cfg, image)
        val, end = q.parse(root, at)
    except (M.OutOfDomain, M.Short, M.NonCanon):
        return
    if q.noncanon:
        return
    libs = load(ctx, root, cfg)
    if libs is None:
        return
    for comp in MODES:
        cs, T = libs[comp]
        ctx.ev("mode:" + mode_name(comp))
        s, close = open_stream(ctx, kind, image, base)
        try:
            s.seek(base + at)
            d = lambda: {**lib.describe(root, cfg), "mode": mode_name(comp), "image": image.hex(), "base": hex(base), "root_at": at, "stream": kind}
            obj = call(T, s)
            got = canon(root, obj) if not isinstance(obj, Err) else obj
            if not ctx.check(got == val and s.tell() == base + end, "parse", lambda: {**d(), "expected": repr(val), "got": repr(got), "tell": s.tell()}):
                continue
            j = Judge(ctx, cfg, image, base, s, lambda: Sparse(image, base) if kind == "sparse" else io.BytesIO(image), d)
            j.walk(root, T, obj, val, "root")
            # writing back, with addresses unchanged after all that
            n = M.sizeof(root, cfg)
            r = call(obj.dumps)
            if n is not None or not dynamic_union(root):
                enc = call(M.encode, root, val, cfg)
                if not isinstance(enc, Err):
                    b, m = enc
                    ok = not isinstance(r, Err) and len(r) == len(b) and all((x & k) == (y & k) for x, y, k in zip(r, b, m))
                    ctx.ev("dumped")
                    ctx.check(ok, "dump", lambda: {**d(), "expected": b.hex(), "mask": m.hex(), "got": r.hex() if isinstance(r, bytes) else repr(r)})
            if j.budget < 60:
                ctx.key(d()["definition"], d()["modes"], image, base, comp)
        finally:
            if close:
                close()
    ctx.sample({**lib.describe(root, cfg), "image": image.hex(), "base": base})


def w_big(ctx, i):
    """Large targets: long strings, arrays and structures, very many fields."""
    rng = ctx.rng
    root, cfg = gen.big_program(rng, dynamic=rng.random() < 0.5, limit=9000)
    cfg.ptr = M.SC[rng.choice(("uint32", "uint64", "uint48", "uint24"))]
    P = M.Pt(root)
    hold = M.St("HOLD", [M.Fd("a", M.SC["uint8"]), M.Fd("p", M.Pt(root)), M.Fd("s", M.Pt(M.SC["char"])), M.Fd("q", M.Ar(M.Pt(M.SC["char"]), "n", 2)),
                         M.Fd("r", M.Pt(P)), M.Fd("z", M.SC["uint16"])], False, root.align)
    mem = BigMemory(rng, cfg, 0, 1 << 20)
    p = M.Parser(cfg, b"", mem)
    try:
        p.parse(hold, 0)
        image = bytes(mem.img)
        image += bytes(-len(image) % 64)
        at = len(image)
        image += bytes(p.data) + rng.randbytes(3)
        val, end = M.Parser(cfg, image).parse(hold, at)
    except (M.OutOfDomain, M.Short, M.NonCanon):
        return
    libs = load(ctx, hold, cfg)
    if libs is None:
        return
    for comp in MODES:
        cs, T = libs[comp]
        s = io.BytesIO(image)
        s.seek(at)
        d = lambda: {**lib.describe(hold, cfg), "mode": mode_name(comp), "image_size": len(image), "root_at": at, "image": image[:40000].hex()}  # noqa: E731
        obj = call(T, s)
        got = canon(hold, obj) if not isinstance(obj, Err) else obj
        if not ctx.check(got == val and s.tell() == end, "parse", lambda: {**d(), "expected": repr(val), "got": repr(got), "tell": s.tell()}):
            continue
        j = Judge(ctx, cfg, image, 0, s, lambda: io.BytesIO(image), d)
        j.walk(hold, T, obj, val, "root")
        ctx.ev("big_targets")
        ctx.key("big", M.program_text(hold), len(image), comp)


def dynamic_union(t):
    out = []
    M.walk(t, lambda x, d: out.append(1) if isinstance(x, M.St) and x.union and M.sizeof(x, M.Cfg()) is None else None)
    return bool(out)


TARGETS = ["uint8", "int16", "uint32", "int64", "uint24", "int48", "uint128", "float", "double", "float16", "char", "CHAR", "wchar", "uleb128", "ileb128", "E", "F", "S", "U", "D",
           "A3", "C4", "V", "char *", "S *", "uint16 **", "CP", "SP", "struct S"]
PRE = """
enum E : uint16 {{ E0, E1, E2 = 0x100 }};
flag F : uint8 {{ F0, F1, F2 }};
struct S {{ uint8 a; uint16 b; char c[2]; {0} *self_like; }};
union U {{ uint32 x; uint8 y[4]; struct {{ uint16 lo; uint16 hi; }}; }};
struct D {{ uint8 n; uint16 v[n & 3]; char s[]; }};
typedef uint16 A3[3];
typedef char C4[4];
typedef wchar V[2];
typedef char *CP;
typedef S *SP;
"""
CONFIGS = [(w, e, c) for w in gen.PTRS for e in "<>" for c in MODES]


def w_targets(ctx, i):
    """Every width, byte order and mode with every kind of target, at random addresses of random memory."""
    rng = ctx.rng
    w, e, comp = CONFIGS[i % len(CONFIGS)]
    width = M.SC[w].size
    align = rng.random() < 0.4
    fields = [(f"p{k}", t) for k, t in enumerate(TARGETS)]
    rng.shuffle(fields)
    style = rng.randrange(3)
    cs = cstruct(endian=e, pointer=w) if style else cstruct(endian=e)
    if style == 0:
        cs.pointer = cs.resolve(w)
    elif style == 1 and w == "uint32":
        cs = cstruct(endian=e, pointer="DWORD")
    ctx.ev(f"width:{width}")
    ctx.ev("mode:" + mode_name(comp))
    body = ""
    for n, t in fields:
        body += f"    {t.replace(' *', '').strip('*')} {'*' * (t.count('*') + 1)}{n};\n"
        if rng.random() < 0.2:
            body += f"    uint8 z{n};\n"
    text = PRE.format(rng.choice(("uint8", "char", "S"))) + "struct R {\n" + body + "};\n"
    r = call(cs.load, text, compiled=comp, align=align)

    def d(**kw):
        return {"definition": text, "endian": e, "pointer": w, "mode": mode_name(comp), "align": align, **kw}

    if isinstance(r, Err):
        ctx.fail("definition-rejected", d(raised=repr(r)))
        return
    ctx.ev("layouts")
    T = cs.R
    off = 0
    for f in T.__fields__:
        sz = width if f._name.startswith("p") else 1
        if align and sz > 1:
            off = M.up(off, M.SC[w].align)
        ctx.check(f.offset == off and (sz == 1 or len(f.type) == width), "layout", lambda: d(field=f._name, offset=f.offset, expected=off, size=len(f.type)))
        off += sz
    total = M.up(off, M.SC[w].align) if align else off
    ctx.check(len(T) == total, "layout", lambda: d(size=len(T), expected=total))
    memlen = min(240, 1 << (width * 8)) - 1 if width == 1 else rng.choice((100, 300))
    mem = bytes(rng.choice((0, 1, 2, 0x41, 0x42, 0xFF, rng.randrange(256))) for _ in range(memlen)) + b"\x00"
    vals = {n: rng.choice((0, rng.randrange(memlen), rng.randrange(memlen), rng.randrange(memlen), memlen - rng.randrange(6), rng.getrandbits(width * 8))) for n, _ in fields}
    rootb = bytearray(total)
    for f in T.__fields__:
        if f._name.startswith("p"):
            rootb[f.offset:f.offset + width] = vals[f._name].to_bytes(width, "little" if e == "<" else "big")
        else:
            rootb[f.offset] = rng.randrange(256)
    at = -len(mem) % 16 + len(mem)
    image = mem.ljust(at, b"\x00") + bytes(rootb) + b"tail"
    s = Recorder(image)
    s.seek(at)
    obj = call(T, s)
    if not ctx.check(not isinstance(obj, Err) and s.tell() == at + total, "parse", lambda: d(image=image.hex(), at=at, raised=repr(obj), tell=s.tell())):
        return
    where = s.tell()
    order = [n for n, _ in fields] * 2
    rng.shuffle(order)
    first = {}
    kinds = dict(fields)
    for n in order:
        p = getattr(obj, n)
        v = vals[n]
        ctx.ev("pointers")
        if not ctx.check(int(p) == v, "value", lambda: d(image=image.hex(), field=n, expected=hex(v), got=repr(p))):
            continue
        got = call(p.dereference)
        ctx.check(s.tell() == where, "moved", lambda: d(image=image.hex(), field=n, value=v, before=where, after=s.tell()))
        ctx.ev("unmoved")
        if v == 0:
            ctx.ev("null")
            ctx.check(isinstance(got, Err) and got.isa(NullPointerDereference), "null-dereference", lambda: d(field=n, got=repr(got)))
            continue
        TT = type(p).type
        text_like = kinds[n] in ("char", "CHAR")
        f2 = io.BytesIO(image)
        if v >= 1 << 63:
            ctx.check(isinstance(got, Err), "beyond", lambda: d(field=n, got=repr(got)))
            continue
        f2.seek(v)
        ref = call((TT[None] if text_like else TT).read, f2)
        same = (isinstance(got, Err) and isinstance(ref, Err) and got.name == ref.name) or (repr(got) == repr(ref) and (text_like or type(got) is type(ref)))
        ctx.ev("derefs")
        ctx.check(same, "differs-from-direct-parse", lambda: d(image=image.hex(), field=n, target=kinds[n], value=v, direct=repr(ref), got=repr(got)))
        if text_like and v < len(image):
            z = image.find(b"\x00", v)
            ctx.check(isinstance(got, Err) if z < 0 else not isinstance(got, Err) and bytes(got) == image[v:z], "string", lambda: d(image=image.hex(), field=n, value=v, got=repr(got)))
            ctx.ev("char_strings")
        if n in first:
            ctx.ev("repeat")
            ctx.check(repr(first[n]) == repr(got), "not-stable", lambda: d(image=image.hex(), field=n, value=v, first=repr(first[n]), second=repr(got)))
        else:
            first[n] = got
            if kinds[n] in ("A3", "C4", "V"):
                ctx.ev("array_targets")
    r = call(obj.dumps)
    ok = isinstance(r, bytes) and len(r) == total and all(r[f.offset:f.offset + len(f.type)] == rootb[f.offset:f.offset + len(f.type)] for f in T.__fields__)
    ctx.ev("dumped")
    ctx.check(ok, "dump", lambda: d(expected=bytes(rootb).hex(), got=r.hex() if isinstance(r, bytes) else repr(r)))
    # move some of them and write again
    want = bytearray(rootb)
    for f in rng.sample(T.__fields__, 4):
        if f._name[0] != "p":
            continue
        k = rng.randrange(64)
        nv = vals[f._name] + k
        if nv >= 1 << width * 8:
            continue
        setattr(obj, f._name, getattr(obj, f._name) + k if rng.random() < 0.7 else nv)
        want[f.offset:f.offset + width] = nv.to_bytes(width, "little" if e == "<" else "big")
    r = call(obj.dumps)
    ctx.ev("dumped_moved")
    ctx.check(isinstance(r, bytes) and all(r[f.offset:f.offset + len(f.type)] == want[f.offset:f.offset + len(f.type)] for f in T.__fields__), "dump",
              lambda: d(expected=bytes(want).hex(), got=r.hex() if isinstance(r, bytes) else repr(r)))
    # pointers that have no stream
    z = T()
    for n in rng.sample([n for n, _ in fields], 5):
        p = getattr(z, n)
        ctx.ev("no_stream")
        r = call(p.dereference)
        ctx.check(int(p) == 0 and isinstance(r, Err) and r.isa(NullPointerDereference), "default", lambda: d(field=n, got=repr(p), raised=repr(r)))
        q = call(operator.add, p, rng.randrange(1, 200))
        r = call(lambda: q.dereference())
        ctx.check(type(q) is type(p) and isinstance(r, Err) and r.isa(NullPointerDereference), "no-stream", lambda: d(field=n, got=repr(q), raised=repr(r)))
        q = call(type(p), 5, None)
        r = call(lambda: q.dereference())
        ctx.check(type(q) is type(p) and isinstance(r, Err) and r.isa(NullPointerDereference), "no-stream", lambda: d(field=n, got=repr(q), raised=repr(r)))
    ctx.key("targets", text, w, e, comp, image)


class Faulty(Recorder):
    """Reads fail while `bad` is set (after `after` of them)."""

    bad = False
    after = 0

    def read(self, n=-1):
        if self.bad:
            if self.after <= 0:
                raise OSError("injected")
            self.after -= 1
        return super().read(n)


def w_sequences(ctx, i):
    """Linked lists, several structures from one stream with dereferences between them, failing reads and second attempts."""
    rng = ctx.rng
    w = rng.choice(gen.PTRS)
    e = rng.choice("<>")
    width = M.SC[w].size
    comp = rng.random() < 0.5
    cs = cstruct(endian=e, pointer=w)
    arr = rng.choice(("", "[2]"))
    text = (f"struct N;\nstruct N {{ uint8 v; uint16 k : 4; uint16 l : 12; N *next; char *name; }};\nstruct H {{ uint8 id; N *head{arr}; char s[2]; union {{ N *u; uint8 raw; }}; }};\n"
            .replace("struct N;\n", ""))
    r = call(cs.load, text, compiled=comp)

    def d(**kw):
        return {"definition": text, "endian": e, "pointer": w, "mode": mode_name(comp), **kw}

    if isinstance(r, Err):
        ctx.fail("definition-rejected", d(raised=repr(r)))
        return
    o = "little" if e == "<" else "big"
    nsize = 3 + 2 * width
    hsize = 1 + width * (2 if arr else 1) + 2 + width
    m = rng.randint(2, 4)
    img = bytearray(rng.randbytes(rng.randrange(1, 4)))
    names = []
    nodes = []
    for k in range(m):
        s = bytes(rng.choice(b"xyz\xfe") for _ in range(rng.randrange(4)))
        names.append((len(img), s))
        img += s + b"\x00"
    base = len(img)
    pitch = nsize + rng.randrange(3)
    addr = [base + k * pitch for k in range(m)]
    rng.shuffle(addr)
    img += bytes(pitch * m)
    cyc = rng.random() < 0.5
    for k in range(m):
        v, kk, ll = rng.randrange(256), rng.randrange(16), rng.randrange(4096)
        bits = kk | ll << 4 if e == "<" else kk << 12 | ll
        nxt = addr[k + 1] if k + 1 < m else addr[0] if cyc else 0
        nodes.append((v, kk, ll, nxt, names[k]))
        b = bytes([v]) + bits.to_bytes(2, o) + nxt.to_bytes(width, o) + names[k][0].to_bytes(width, o)
        img[addr[k]:addr[k] + nsize] = b
    hat = len(img)
    heads = []
    for k in range(rng.randint(1, 3)):
        hs = [rng.choice(addr) for _ in range(2 if arr else 1)]
        u = rng.choice(addr + [0])
        idv = rng.randrange(256)
        heads.append((idv, hs, u))
        img += bytes([idv]) + b"".join(x.to_bytes(width, o) for x in hs) + b"ab" + u.to_bytes(width, o)
    if len(img) > 1 << (8 * width) and width == 1:
        return
    s = Faulty(bytes(img))
    s.seek(hat)
    byaddr = dict(zip(addr, nodes))
    ctx.ev("sequences")

    def follow(p, a, h):
        for step in range(m + 2):
            if a == 0:
                r = call(p.dereference)
                ctx.check(isinstance(r, Err) and r.isa(NullPointerDereference), "null-dereference", lambda: d(image=img.hex(), got=repr(r)))
                return
            v, kk, ll, nxt, nm = byaddr[a]
            pos = s.tell()
            if rng.random() < 0.3:
                # the stream fails during the first attempt
                s.bad, s.after = True, rng.randrange(2)
                r = call(p.dereference)
                s.bad = False
                ctx.ev("read_faults")
                ctx.check(s.tell() == pos, "moved", lambda: d(image=img.hex(), what="failed read", before=pos, after=s.tell()))
            got = (call(lambda: p.v), call(lambda: p.k), call(lambda: p.l), call(lambda: int(p.next)), call(lambda: bytes(p.name.dereference())))
            ctx.ev("list_nodes")
            if not ctx.check(got == (v, kk, ll, nxt, nm[1]) and s.tell() == pos, "list-node",
                             lambda: d(image=img.hex(), head=h, step=step, address=a, expected=(v, kk, ll, nxt, nm[1]), got=repr(got), before=pos, after=s.tell())):
                return
            p, a = p.next, nxt

    objs = []
    for k, (idv, hs, u) in enumerate(heads):
        obj = call(cs.H, s)
        ok = not isinstance(obj, Err) and obj.id == idv and bytes(obj.s) == b"ab" and s.tell() == hat + (k + 1) * hsize
        if not ctx.check(ok, "sequence", lambda: d(image=img.hex(), start=hat, index=k, got=repr(obj), tell=s.tell())):
            return
        objs.append(obj)
        ps = list(obj.head) if arr else [obj.head]
        for p, a in zip(ps, hs):
            follow(p, a, k)
        if u:
            ctx.ev("in_union")
        follow(obj.u, u, k)
    for k in range(len(objs)):
        idv, hs, u = heads[k]
        obj = objs[k]
        want = img[hat + k * hsize:hat + (k + 1) * hsize]
        ctx.check(call(obj.dumps) == bytes(want), "dump", lambda: d(image=img.hex(), expected=want.hex(), got=repr(call(obj.dumps))))
        follow((obj.head[0] if arr else obj.head), hs[0], k)
    ctx.key("seq", text, w, e, comp, bytes(img))


LENGTHS = [("n", lambda n, m: n), ("n & 3", lambda n, m: n & 3), ("n + m", lambda n, m: n + m), ("m * 2", lambda n, m: m * 2), ("n - m", lambda n, m: max(0, n - m)),
           ("(n >> 1) + 1", lambda n, m: (n >> 1) + 1), ("K * m", lambda n, m: 2 * m), ("m", lambda n, m: m), ("n ^ m", lambda n, m: n ^ m)]


def w_context(ctx, i):
    """Targets whose array length is an expression over fields of the structure that holds the pointer: pointer, arithmetic and nested pointers share it."""
    rng = ctx.rng
    w = rng.choice(gen.PTRS)
    e = rng.choice("<>")
    comp = rng.random() < 0.5
    width = M.SC[w].size
    o = "little" if e == "<" else "big"
    ltext, lfn = rng.choice(LENGTHS)
    elem = rng.choice(("uint8", "uint16", "int32", "char", "uint24", "E"))
    size = {"uint8": 1, "uint16": 2, "int32": 4, "char": 1, "uint24": 3, "E": 1}[elem]
    form = rng.choice(("plain", "array", "double", "second", "counted"))
    cs = cstruct(endian=e, pointer=w)
    bits = rng.random() < 0.3
    decl = {"plain": "XA *p;", "array": "XA *p[2];", "double": "XA **p;", "second": "uint16 gap; XA *q; XA *p;", "counted": "XA *p[c];"}[form]
    heads = "uint8 n : 4; uint8 m : 4;" if bits else rng.choice(("uint8 n; uint8 m;", "uint16 n; uint8 c0; uint8 m;", "uleb128 n; uint8 m;"))
    if form == "counted":
        heads += " uint8 c;"
    text = f"#define K 2\nenum E : uint8 {{ A, B }};\ntypedef {elem} XA[{ltext}];\nstruct R {{ {heads} {decl} uint8 z; }};\nstruct O {{ uint8 n; uint8 m; R r; uint8 k; }};\n"
    r = call(cs.load, text, compiled=comp)

    def d(**kw):
        return {"definition": text, "endian": e, "pointer": w, "mode": mode_name(comp), **kw}

    if isinstance(r, Err):
        ctx.fail("definition-rejected", d(raised=repr(r)))
        return
    n, m = rng.randrange(8), rng.randrange(5)
    if form == "array":
        count = 2
    elif form == "counted":
        count = rng.randint(1, 3)
    else:
        count = 1
    mem = bytearray(rng.randbytes(rng.randrange(90, 130)))
    addrs = [rng.randrange(1, len(mem) - 40) for _ in range(count + 1)]
    ptrb = [a.to_bytes(width, o) for a in addrs]
    if form == "double":
        at = len(mem) - 10
        mem[at:at + width] = ptrb[0]
        ptrs = at.to_bytes(width, o)
    elif form == "second":
        ptrs = rng.randbytes(2) + ptrb[1] + ptrb[0]
    else:
        ptrs = b"".join(ptrb[:count])
    if bits:
        head = bytes([n | m << 4 if e == "<" else n << 4 | m])
    elif "uint16 n" in heads:
        head = n.to_bytes(2, o) + b"\x07" + bytes([m])
    else:
        head = bytes([n, m])
    if form == "counted":
        head += bytes([count])
    whole = head + ptrs + b"\x5a"
    outer = rng.random() < 0.4
    at = len(mem)
    image = bytes(mem) + (bytes([n ^ 5, m ^ 3]) + whole + b"\x66" if outer else whole) + b"more"
    s = Recorder(image)
    s.seek(at)
    obj = call(cs.O if outer else cs.R, s)
    if not ctx.check(not isinstance(obj, Err) and s.tell() == len(image) - 4, "parse", lambda: d(image=image.hex(), at=at, raised=repr(obj), tell=s.tell())):
        return
    if outer:
        obj = obj.r
    length = lfn(n, m)
    pos = s.tell()

    def judge(p, a, how):
        if width == 1 and a > 255:
            return
        got = call(p.dereference)
        want = image[a:a + size * length]
        if elem == "char":
            g = got
        elif isinstance(got, Err):
            g = got
        else:
            g = b"".join((int(x.value) if elem == "E" else int(x) & (1 << 8 * size) - 1).to_bytes(size, o) for x in got)
        ctx.ev("context_targets")
        ctx.check(isinstance(g, bytes) and bytes(g) == want and s.tell() == pos, "context-target",
                  lambda: d(image=image.hex(), at=at, how=how, n=n, m=m, address=a, length=length, expected=want.hex(), got=repr(got), before=pos, after=s.tell()))

    ps = list(obj.p) if form in ("array", "counted") else [obj.p]
    for k, p in enumerate(ps):
        a = addrs[k]
        if form == "double":
            pp, p = p, call(p.dereference)
            if not ctx.check(not isinstance(p, Err) and int(p) == a, "value", lambda: d(image=image.hex(), expected=a, got=repr(p))):
                return
        judge(p, a, "pointer")
        for name, fn in rng.sample(ARITH, 4):
            k2 = rng.randrange(1, 4) if name not in ("**", "//", "*") else 1
            if name == "<<":
                k2 = 0
            if name == "%":
                k2 = 1 << 20
            if name == "&":
                k2 = 0x7F
            b = fn(a, k2)
            if 0 < b < at:
                q = call(fn, p, k2)
                if ctx.check(type(q) is type(p) and int(q) == b, "arithmetic", lambda: d(op=f"{name} {k2}", got=repr(q), expected=b)):
                    judge(q, b, f"pointer {name} {k2}")
                    if rng.random() < 0.5:
                        judge(call(operator.add, q, 1), b + 1, f"pointer {name} {k2} + 1")
        if form == "double" and rng.random() < 0.7:
            q = call(lambda: (pp + 1 - 1).dereference())
            if ctx.check(not isinstance(q, Err) and int(q) == a, "value", lambda: d(image=image.hex(), expected=a, got=repr(q))):
                judge(q, a, "(pp + 1 - 1) dereferenced")
        judge(p, a, "again")
    ctx.key("context", text, w, e, comp, image)


QUICK_FACTOR = 2
WORKLOADS = {
    "big": (w_big, 160, 2400),
    "context": (w_context, 1500, 20000),
    "targets": (w_targets, len(CONFIGS) * 30, len(CONFIGS) * 500),
    "random": (w_random, 3000, 45000),
    "sequences": (w_sequences, 1500, 20000),
}
