"""C08 truncated and failing input: every cut point and every read call of a parse is a fault point; no value may be fabricated."""
from __future__ import annotations

import io

from . import gen, lib
from . import model as M
from .boot import cstruct
from .common import (MODES, dynunion_program, BytesIO, Err, call, canon, count_features, ends_with_eof, load, mode_name, program, witness)

PID = "C08"
ANCHORS = ["types/packed.py", "types/int.py", "types/char.py", "types/wchar.py", "types/leb128.py", "types/structure.py", "types/base.py"]
RULE = ("A case is a generated definition (or bare type) with an accepted input; it is parsed from every prefix of the input and with a "
        "stream fault (short read by one byte, short read to nothing, nothing at all, an exception, None) injected at every read call "
        "the undisturbed parse makes.  After the faults the same types parse the complete input again and their public state is compared "
        "with a snapshot.  Non-trivial: at least one fault was injected before the last data-carrying byte; distinct by "
        "definition, configuration, reader and input.")
ASSUMPTIONS = ["where the data-carrying bytes end comes from the reference model", "definitions ending in a to-end-of-stream array: only "
               "cuts before that array and exceptions are judged"]
REQUIRED = ["big", "large", "dynamic_unions", "cuts", "cuts_before_data_end", "cuts_in_padding", "faults:exception", "faults:short", "faults:empty", "faults:none", "dribble",
            "residue_checks", "state_snapshots", "bare", "feature:union", "feature:bits", "feature:arr0", "feature:arre", "feature:uleb128"]


class Boom(Exception):
    """Injected by the stream."""


class Faulty(io.BytesIO):
    """Fails at the k-th read call."""

    def __init__(self, data, at=None, kind=None, exc=None):
        super().__init__(data)
        self.n = 0
        self.at, self.kind, self.exc = at, kind, exc
        self.hit = None
        self.calls = []

    def read(self, n=-1):
        p = self.tell()
        k = self.n
        self.n += 1
        if k == self.at:
            if self.kind == "exception":
                self.hit = (p, n)
                raise self.exc("injected")
            if self.kind == "none":
                self.hit = (p, n)
                return None
            want = len(super().read(n))
            self.seek(p)
            if want:
                self.hit = (p, n)
                m = {"short": want - 1, "half": want // 2, "empty": 0}[self.kind]
                return super().read(m)
        b = super().read(n)
        self.calls.append((p, n, len(b)))
        return b


class Dribble(io.BytesIO):
    """Never delivers more than m bytes at once, as an unbuffered device would."""

    def __init__(self, data, m):
        super().__init__(data)
        self.m = m

    def read(self, n=-1):
        return super().read(self.m if n is None or n < 0 or n > self.m else n)


def data_end(mask, e):
    d = 0
    for i in range(min(e, len(mask))):
        if mask[i]:
            d = i + 1
    return d


def snapshot(cs, root):
    """The public state of the types and of the cstruct instance."""
    out = [cs.endian, str(cs.pointer), sorted(cs.consts.items(), key=str), sorted(cs.typedefs), dict(cs.lookups)]
    for t in M.deps(root):
        T = cs.resolve(t.name)
        if isinstance(t, M.En):
            out.append([(n, int(m.value)) for n, m in T.__members__.items()])
        else:
            out.append((T.size, T.alignment, T.dynamic, getattr(T, "__compiled__", None),
                        [(f.name, f.type.__name__, f.offset, f.bits, f.alignment) for f in T.__fields__], list(T.fields), list(T.lookup)))
    return repr(out)


def judge_cut(ctx, root, cfg, comp, T, data, k, D, full, how="cut"):
    o = call(T, data[:k])
    ctx.ev("cuts")
    det = lambda **kw: witness(root, cfg, comp, data, cut=k, data_end=D, **kw)  # noqa: E731
    if k < D:
        ctx.ev("cuts_before_data_end")
        if not ctx.check(isinstance(o, Err), "fabricated", lambda: det(returned=repr(o))):
            return
        ctx.check(o.name == "EOFError", "wrong-error", lambda: det(raised=repr(o)))
    else:
        ctx.ev("cuts_in_padding")
        if not isinstance(o, Err):
            ctx.check(canon(root, o) == full, "shortened-differs", lambda: det(returned=repr(o), expected=repr(full)))
        else:
            ctx.check(o.name == "EOFError", "wrong-error", lambda: det(raised=repr(o)))


def faults(ctx, root, cfg, comp, T, data, D, full, eof):
    base = Faulty(data)
    o = call(T, base)
    if isinstance(o, Err):
        ctx.fail("parse-failed", witness(root, cfg, comp, data, raised=repr(o)))
        return
    total = base.n
    at = range(total) if total <= 24 else sorted(ctx.rng.sample(range(total), 24))
    for k in at:
        kinds = [("exception", Boom), ("exception", OSError)]
        if not eof:
            kinds += [("short", None), ("half", None), ("empty", None), ("none", None)]
            if ctx.rng.random() < 0.3:
                kinds.append(("exception", EOFError))
        for kind, exc in kinds:
            s = Faulty(data, k, kind, exc)
            o = call(T, s)
            if s.hit is None:
                ctx.ev("fault_not_reached")
                continue
            ctx.ev("faults:" + {"half": "short"}.get(kind, kind))
            p, n = s.hit
            det = lambda **kw: witness(root, cfg, comp, data, fault=kind, exception=getattr(exc, "__name__", None), read_call=k,  # noqa: E731
                                       position=p, requested=n, data_end=D, **kw)
            if isinstance(o, Err):
                if kind == "exception" and exc is Boom:
                    ctx.ev("exceptions_propagated")
                continue
            if kind == "exception" and p < D:
                ctx.check(False, "fault-swallowed", lambda: det(returned=repr(o)))
            else:
                # a value may only come back when it is the one the complete input gives
                ctx.check(canon(root, o) == full, "fabricated-after-fault", lambda: det(returned=repr(o), expected=repr(full)))
    if not eof:
        for m in (1, 2, 3):
            o = call(T, Dribble(data, m))
            ctx.ev("dribble")
            if not isinstance(o, Err):
                ctx.check(canon(root, o) == full, "dribble-differs", lambda: witness(
                    root, cfg, comp, data, at_most=m, returned=repr(o), expected=repr(full)))


def eof_start(root, v, e, cfg, data):
    """Where a trailing to-end-of-stream array starts."""
    head = M.St(root.name, root.fields[:-1], False, root.align)
    p = M.Parser(cfg, data)
    _, end = p._struct(M.St(None, root.fields[:-1], False, False) if not root.align else head, 0)
    return data_end(p.mask, end)


def one(ctx, root, cfg, inputs=2):
    loaded = load(ctx, root, cfg)
    if loaded is None:
        return
    count_features(ctx, root)
    eof = ends_with_eof(root)
    for _ in range(inputs):
        d = gen.gen_data(ctx.rng, root, cfg)
        if d is None:
            continue
        data, v, e, q = d
        if len(data) > 400 and not cfg.big:
            continue
        mask = bytes(q.mask[:e]) + bytes(max(0, e - len(q.mask)))
        D = data_end(mask, e)
        for comp, (cs, T) in loaded.items():
            o = call(T, data)
            if isinstance(o, Err) or canon(root, o) != v:
                ctx.fail("parse-failed", witness(root, cfg, comp, data, got=repr(o), expected=repr(v)))
                continue
            full = v
            before = snapshot(cs, root)
            lim = eof_start(root, v, e, cfg, data) if eof else D
            n = min(e, len(data))
            ks = range(n)
            if n > 400:
                near = [x + y for x in (0, 64, 128, 255, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, lim, n) for y in (-2, -1, 0, 1, 2)]
                ks = sorted({k for k in [*near, *(ctx.rng.randrange(n) for _ in range(12))] if 0 <= k < n})
            for k in ks:
                if eof and k >= lim:
                    # shorter input, shorter array: the head must not change and the array must be a prefix
                    o = call(T, data[:k])
                    ctx.ev("cuts")
                    ctx.ev("eof_array_cuts")
                    if not isinstance(o, Err):
                        got = canon(root, o)
                        name = root.fields[-1].name
                        ok = isinstance(got, dict) and all(got[n] == full[n] for n in full if n != name) and (
                            full[name][: len(got[name])] == got[name])
                        ctx.check(ok, "eof-array-fabricated", lambda: witness(root, cfg, comp, data, cut=k, returned=repr(o), full=repr(full)))
                    continue
                judge_cut(ctx, root, cfg, comp, T, data, k, lim if eof else D, full)
            faults(ctx, root, cfg, comp, T, data, lim if eof else D, full, eof)
            # no residue: the same types on the complete input, and a failed stream rewound
            ctx.ev("residue_checks")
            o = call(T, data)
            got = canon(root, o) if not isinstance(o, Err) else o
            ctx.check(got == full, "residue", lambda: witness(root, cfg, comp, data, returned=repr(o), expected=repr(full)))
            s = Faulty(data, ctx.rng.randrange(max(1, len(data))), "exception", Boom)
            call(T, s)
            s.at = None
            s.seek(0)
            o = call(T, s)
            got = canon(root, o) if not isinstance(o, Err) else o
            ctx.check(got == full, "residue-stream", lambda: witness(root, cfg, comp, data, returned=repr(o), expected=repr(full)))
            for t in M.deps(root)[:-1]:
                n = M.sizeof(t, cfg)
                if n is None:
                    continue
                x = ctx.rng.randbytes(n)
                p = M.Parser(cfg, x)
                try:
                    w, _ = p.parse(t, 0)
                except (M.Short, M.OutOfDomain):
                    continue
                if p.noncanon:
                    continue
                o = call(cs.resolve(t.name), x)
                got = canon(t, o) if not isinstance(o, Err) else o
                ctx.check(got == w, "residue-inner", lambda: witness(root, cfg, comp, x, type=t.name, returned=repr(o), expected=repr(w)))
            ctx.ev("state_snapshots")
            after = snapshot(cs, root)
            ctx.check(before == after, "state-changed", lambda: witness(root, cfg, comp, data, before=before, after=after))
            ctx.key(M.program_text(root, cfg.consts), cfg.endian, cfg.ptr.name, comp, data)
        ctx.sample({**witness(root, cfg, data=data), "data_end": D})


PROFILES = [{}, {"align": True}, {"bits": 0.6}, {"array": 0.6, "dyn": 0.6, "leb": 0.15}, {"union": 0.5, "nested": 0.45, "depth": 3},
            {"array": 0.6, "odd": True, "floats": True, "fields": (3, 10)}, {"eof": 0.8, "array": 0.4}, {"ptr": 0.3, "enum": 0.3},
            {"mixed_align": 0.4, "nested": 0.5, "depth": 3}, {"leb": 0.4, "leb_enum": 0.4, "dyn": 0.8, "array": 0.5}]


def w_program(ctx, i):
    root, cfg = program(ctx, PROFILES[i % len(PROFILES)], root_kw={"union": True} if ctx.rng.random() < 0.06 else {})
    one(ctx, root, cfg, 2 if i % 2 else 1)


def w_big(ctx, i):
    """The same where one dimension is big: long arrays and strings, hundreds of fields, deep nesting, big unions."""
    ctx.ev("big")
    one(ctx, *gen.big_program(ctx.rng, limit=9000 if i % 4 else 70000), 1)


def w_garbage(ctx, i):
    """Arbitrary short inputs: when the model says the input ends early the library must raise, otherwise agree."""
    root, cfg = program(ctx, PROFILES[i % len(PROFILES)])
    loaded = load(ctx, root, cfg)
    if loaded is None or ends_with_eof(root):
        return
    rng = ctx.rng
    size = M.sizeof(root, cfg)
    for _ in range(12):
        n = rng.randrange(0, (size or 24) + 6)
        data = rng.choice((rng.randbytes(n), bytes(n), b"\xff" * n, bytes(rng.choice((0, 1, 2, 255)) for _ in range(n))))
        p = M.Parser(cfg, data)
        try:
            v, e = p.parse(root, 0)
            short = False
        except M.Short:
            short = True
        except M.OutOfDomain:
            continue
        if p.noncanon:
            continue
        ctx.ev("garbage_short" if short else "garbage_complete")
        for comp, (cs, T) in loaded.items():
            o = call(T, data)
            if short:
                ctx.check(isinstance(o, Err), "fabricated", lambda: witness(root, cfg, comp, data, returned=repr(o)))
                if isinstance(o, Err):
                    # arbitrary bytes may also be invalid UTF-16 before they end
                    ctx.check(o.name in ("EOFError", "UnicodeDecodeError"), "wrong-error",
                              lambda: witness(root, cfg, comp, data, raised=repr(o)))
            elif not isinstance(o, Err):
                ctx.check(canon(root, o) == v, "garbage-value", lambda: witness(root, cfg, comp, data, returned=repr(o), expected=repr(v)))
        ctx.key("garbage", M.program_text(root, cfg.consts), cfg.endian, data)


def w_bare(ctx, i):
    """Every scalar, enum, pointer and array of it outside structures, through every call form, at every cut."""
    rng = ctx.rng
    names = [n for n, t in M.SC.items() if t.kind != "void"]
    n = names[i % len(names)]
    t = M.SC[n]
    cfg = M.Cfg(rng.choice("<>!=@"), M.SC[rng.choice(("uint32", "uint64", "uint16", "uint24"))])
    cs = lib.new_cs(cfg)
    T = cs.resolve(n)
    cases = [(T, t), (T[3], M.Ar(t, "n", 3)), (T[2][2], M.Ar(M.Ar(t, "n", 2), "n", 2)), (T[40], M.Ar(t, "n", 40))]
    if t.kind != "float":
        cases.append((T[None], M.Ar(t, "0")))
        cases.append((T[None][2], M.Ar(M.Ar(t, "0"), "n", 2)))
    if t.kind in ("int", "leb"):
        for flag in (False, True):
            en = M.En(f"E{int(flag)}", t, flag, [("A", 1), ("B", 2)], [("A", "1"), ("B", "2")])
            cs.load(M.enum_text(en))
            E = cs.resolve(en.name)
            cases += [(E, en), (E[3], M.Ar(en, "n", 3)), (E[None], M.Ar(en, "0"))]
    if i % len(names) == 0:
        cs.load("typedef uint16 *PP;")
        P = cs.resolve("PP")
        cases += [(P, M.Pt(M.SC["uint16"])), (P[2], M.Ar(M.Pt(M.SC["uint16"]), "n", 2))]
    for X, m in cases:
        d = gen.gen_data(rng, m, cfg)
        if d is None:
            continue
        data, v, e, q = d
        forms = {"T(x)": lambda b: X(b), "T(stream)": lambda b: X(BytesIO(b)), "T.read": lambda b: X.read(BytesIO(b)),
                 "T.reads": lambda b: X.reads(b), "T(bytearray)": lambda b: X(bytearray(b)), "T(memoryview)": lambda b: X(memoryview(b)),
                 "T.read(bytes)": lambda b: X.read(b)}
        ks = range(e) if e <= 60 else sorted(set(rng.sample(range(e), 50)) | {0, e - 1})
        for how, fn in forms.items():
            for k in ks:
                o = call(fn, data[:k])
                ctx.ev("cuts")
                ctx.ev("cuts_before_data_end")
                ctx.check(isinstance(o, Err) and o.name == "EOFError", "bare-fabricated", lambda: {
                    "type": repr(m), "endian": cfg.endian, "form": how, "input": data.hex(), "cut": k, "returned": repr(o)})
            o = call(fn, data)
            ctx.ev("residue_checks")
            ctx.check(call(M.canon, m, o) == v, "bare-residue", lambda: {
                "type": repr(m), "form": how, "input": data.hex(), "returned": repr(o), "expected": repr(v)})
        base = Faulty(data)
        call(X, base)
        for k in range(min(base.n, 12)):
            for kind, exc in (("exception", Boom), ("short", None), ("empty", None), ("none", None)):
                s = Faulty(data, k, kind, exc)
                o = call(X, s)
                if s.hit is None:
                    continue
                ctx.ev("faults:" + kind)
                ctx.check(isinstance(o, Err) or kind != "exception" and call(M.canon, m, o) == v, "bare-fault", lambda: {
                    "type": repr(m), "endian": cfg.endian, "fault": kind, "read_call": k, "input": data.hex(), "returned": repr(o)})
        ctx.ev("bare")
        ctx.key("bare", n, repr(m), cfg.endian, data)


LARGE = [255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 8193, 16384, 32768, 65535, 65536, 65537, 70000, 131072, 131073, 200000]


def w_large(ctx, i):
    """Long runs of every kind of element, ended early by a byte, a few, or most of them."""
    rng = ctx.rng
    kinds = ["char", "wchar", "uint8", "int16", "uint24", "uint32", "int64", "float", "double", "int48", "uint128", "E", "F", "P", "R", "char0", "wchar0",
             "charn", "wcharn", "uint8n", "uint16n", "rows", "text"]
    kind = kinds[i % len(kinds)]
    total = rng.choice(LARGE)
    el, form = (kind[:-1], kind[-1]) if kind[-1] in "0n" and kind not in ("P",) else (kind, "")
    sizes = {"E": 2, "F": 4, "P": 4, "R": 5, "rows": 6, "text": 16, "char": 1, "wchar": 2}
    size = sizes.get(el) or M.SC[el].size
    count = max(2, total // size)
    decl = {"E": "en_t x[{}];", "F": "fl_t x[{}];", "P": "uint8 *x[{}];", "R": "rec_t x[{}];", "rows": "uint16 x[{}][3];", "text": "char x[{}][16];"}.get(el, el + " x[{}];")
    dim = {"0": "", "n": "n", "": str(count)}[form]
    head = "uint32 n; " if form == "n" else "uint8 h; "
    tail = rng.choice(("", " uint16 t;", " struct { uint8 t; };"))
    text = ("enum en_t : uint16 { A = 1 };\nflag fl_t : uint32 { B = 1 };\nstruct rec_t { uint8 a; uint32 b; };\n"
            f"struct S {{ {head}{decl.format(dim)}{tail} }};")
    comp, endian = rng.random() < 0.5, rng.choice("<>")
    cs = cstruct(endian=endian, pointer="uint32")
    cs.load(text, compiled=comp)
    T = cs.S
    unit = b"".join(rng.randrange(0x20, 0x3000).to_bytes(2, "little") for _ in range(64)) if el == "wchar" else bytes(rng.randrange(1, 60) for _ in range(240))
    body = (unit * (count * size // len(unit) + 1))[: count * size]
    if endian == ">" and el == "wchar":
        body = b"".join(body[k : k + 2][::-1] for k in range(0, len(body), 2))
    first = count.to_bytes(4, "little" if endian == "<" else "big") if form == "n" else b"\x01"
    data = first + body + (bytes(size) if form == "0" else b"") + b"\x07" * (0 if not tail else 2 if "uint16" in tail else 1)
    det = lambda **kw: {"definition": text, "endian": endian, "reader": mode_name(comp), "unit": unit.hex(), "head": first.hex(),  # noqa: E731
                        "length": len(data), **kw}
    o = call(T, data)
    if not ctx.check(not isinstance(o, Err) and len(o.x) == count, "parse-failed", lambda: det(got=repr(o)[:200])):
        return
    full = repr(o)
    ctx.ev("large")
    n = len(data)
    body_end = len(first) + count * size
    ks = {n - 1, n - 2, body_end - 1, body_end - size, body_end // 2, len(first) + 1, rng.randrange(n), rng.randrange(n), max(0, n - rng.choice((100, 1000, 4096, 4097, 65536))),
          min(n - 1, len(first) + rng.choice((4096, 8192, 65536, 65537)))}
    for k in sorted(k for k in ks if 0 <= k < n):
        for how, src in (("bytes", data[:k]), ("stream", BytesIO(data[:k])), ("memoryview", memoryview(data)[:k])):
            r = call(T, src)
            ctx.ev("cuts")
            ctx.ev("cuts_before_data_end")
            ctx.check(isinstance(r, Err) and r.name == "EOFError", "fabricated", lambda: det(cut=k, input=how, returned=repr(r)[:200]))
    base = Faulty(data)
    call(T, base)
    for k in {0, base.n - 1, base.n // 2} if base.n else ():
        for kind_, exc in (("short", None), ("half", None), ("exception", Boom)):
            s = Faulty(data, k, kind_, exc)
            r = call(T, s)
            if s.hit is not None and s.hit[0] < n:
                ctx.ev("faults:" + {"half": "short"}.get(kind_, kind_))
                ctx.check(isinstance(r, Err) or kind_ != "exception" and repr(r) == full, "fabricated-after-fault", lambda: det(
                    fault=kind_, read_call=k, position=s.hit[0], requested=s.hit[1], returned=repr(r)[:200]))
    r = call(T, data)
    ctx.check(repr(r) == full, "residue", lambda: det(returned=repr(r)[:200]))
    ctx.key("large", text, endian, comp, unit)


def w_dynunion(ctx, i):
    """Unions of data-dependent size."""
    r = dynunion_program(ctx)
    if r is not None:
        ctx.ev("dynamic_unions")
        one(ctx, *r, 1)


WORKLOADS = {
    "dynunion": (w_dynunion, 250, 4000),
    "big": (w_big, 60, 1200),
    "program": (w_program, 1500, 20000),
    "garbage": (w_garbage, 700, 10000),
    "large": (w_large, 115, 2300),
    "bare": (w_bare, 4 * 20, 60 * 20),
}
