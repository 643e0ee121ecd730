"""C07 arrays: the product of element types and length forms, observed by element count, content, stream position and dump."""
from __future__ import annotations

from . import gen, lib
from . import model as M
from .boot import cstruct
from .common import (MODES, BytesIO, Err, call, canon, count_features, ends_with_eof, float_of, load, make, masked, mode_name, program,
                     witness)

PID = "C07"
ANCHORS = ["types/base.py", "types/packed.py", "types/char.py", "types/wchar.py", "types/int.py", "types/enum.py",
           "types/structure.py", "cstruct.py"]
RULE = ("A case is one element type x one length form (x both orders, both alignments, both readers) with inputs chosen so that the "
        "length takes chosen values, or a generated program rich in arrays.  Compared with the model: contents, element count, stream "
        "position, dump, and refusal of wrong counts.  Non-trivial: the array was parsed and its stream position and contents compared; "
        "distinct by element type, form, configuration and input.")
ASSUMPTIONS = ["the zero element of a null-terminated array of structures has every member zero, every fixed array of zeros and every other array empty; "
               "structures with arrays that are not empty where the members before them are zero are not used as elements",
               "to-end-of-stream arrays only as the last member", "wrong element counts of character arrays are not claimed to be refused"]
REQUIRED = ["arrays_parsed", "form:n", "form:e", "form:0", "form:eof", "multi_dim", "negative_length", "zero_length", "size_refused",
            "partial_tail", "bare", "shadowed_constant", "long_arrays", "sentinel_lengths", "eof_empty", "failing_lengths", "mixed_lengths"]

SC = M.SC


def elements():
    """name -> builder of a fresh element type."""
    out = {}
    for n, t in SC.items():
        if t.kind != "void":
            out[n] = lambda t=t: t
    for b in ("uint8", "int16", "uint24", "int64", "uint128", "uleb128"):
        out["enum " + b] = lambda b=b: M.En("EN", SC[b], False, [("EA", 0), ("EB", 1), ("EC", 5)], [("EA", "0"), ("EB", "1"), ("EC", "5")])
    for b in ("uint8", "uint32", "int16", "uint48"):
        out["flag " + b] = lambda b=b: M.En("FL", SC[b], True, [("FA", 1), ("FB", 2), ("FC", 4)], [("FA", "1"), ("FB", "2"), ("FC", "4")])
    out["ptr"] = lambda: M.Pt(SC["uint32"])
    out["ptrptr"] = lambda: M.Pt(M.Pt(SC["char"]))
    F = M.Fd
    out["struct ints"] = lambda al=False: M.St("SI", [F("p", SC["uint8"]), F("q", SC["int16"])], False, al)
    out["struct one"] = lambda al=False: M.St("SO", [F("p", SC["uint32"])], False, al)
    out["struct odd"] = lambda al=False: M.St("SD", [F("p", SC["uint24"]), F("q", SC["int48"])], False, al)
    out["struct mixed"] = lambda al=False: M.St("SM", [F("p", SC["double"]), F("q", M.Ar(SC["char"], "n", 3)), F("r", SC["wchar"])], False, al)
    out["struct bits"] = lambda al=False: M.St("SB", [F("p", SC["uint16"], 5), F("q", SC["uint16"], 11), F("r", SC["uint8"], 3)], False, al)
    out["struct dyn"] = lambda al=False: M.St("SY", [F("k", SC["uint8"], 2), F("d", M.Ar(SC["uint16"], "e", M.Ex("k", lambda x: x["k"], ("k",))))],
                                              False, al)
    out["struct null"] = lambda al=False: M.St("SN", [F("z", M.Ar(SC["char"], "0")), F("v", SC["int8"])], False, al)
    out["struct leb"] = lambda al=False: M.St("SL", [F("z", SC["uleb128"]), F("v", SC["uint8"])], False, al)
    out["struct arr"] = lambda al=False: M.St("SA", [F("z", M.Ar(SC["uint8"], "n", 3)), F("v", M.Ar(SC["uint32"], "n", 1))], False, al)
    en = lambda: M.En("EN", SC["int16"], False, [("EA", 0), ("EB", 1)], [("EA", "0"), ("EB", "1")])  # noqa: E731
    out["struct float"] = lambda al=False: M.St("SF", [F("p", SC["float"]), F("q", SC["double"])], False, al)
    out["struct deep"] = lambda al=False: M.St("SP", [F("p", M.Pt(SC["uint8"])), F("i", M.St("SQ", [F("u", en()), F("v", SC["uint8"])], False, al)),
                                                      F(None, M.St(None, [F("w", SC["uint16"]), F("z", SC["int8"])], True, al, False))],
                                               False, al)
    out["struct len"] = lambda al=False: M.St("SE", [F("k", SC["uint8"], 2), F("k2", SC["uint8"], 6), F("d", M.Ar(SC["char"], "e", M.Ex(
        "k", lambda x: x["k"], ("k",))))], False, al)
    out["union ints"] = lambda al=False: M.St("UI", [F("p", SC["uint8"]), F("q", SC["uint32"]), F("s", M.St(None, [F(
        "a", SC["uint16"]), F("b", SC["int16"])], False, al, False))], True, al)
    out["union"] = lambda al=False: M.St("UN", [F("p", SC["uint32"]), F("q", M.Ar(SC["uint8"], "n", 2))], True, al)
    return out


ELEMS = elements()
NULL_OK = [n for n in ELEMS if M.nullable(ELEMS[n]()) or (n in SC and SC[n].kind in ("char", "wchar"))]

K = 3  # #define K 3


def ex(text, fn, *deps):
    return M.Ex(text, fn, deps)


# header fields: uint8 n; int16 s; uint8 b : 4; uint8 c : 4; uint24 w; (and K for the shadowing form)
EXPRS = {
    "n": ex("n", lambda x: x["n"], "n"),
    "n - 3": ex("n - 3", lambda x: x["n"] - 3, "n"),
    "s": ex("s", lambda x: x["s"], "s"),
    "-s": ex("-s", lambda x: -x["s"], "s"),
    "n * K - 1": ex("n * K - 1", lambda x: x["n"] * x["K"] - 1, "n", "K"),
    "b": ex("b", lambda x: x["b"], "b"),
    "c + b": ex("c + b", lambda x: x["c"] + x["b"], "b", "c"),
    "w >> 1": ex("w >> 1", lambda x: x["w"] >> 1, "w"),
    "(n & 1) * (K - 1)": ex("(n & 1) * (K - 1)", lambda x: (x["n"] & 1) * (x["K"] - 1), "n", "K"),
    "ee": ex("ee", lambda x: x["ee"], "ee"),
    "n+sizeof(uint16)": ex("n+sizeof(uint16)", lambda x: x["n"] + 2, "n"),
}
FORMS = [("n", c, None) for c in (0, 1, 2, 7, -1, -0xE0F)]
FORMS += [("n", K, "K"), ("n", 0, "K - 3"), ("n", -2, "K - 5"), ("n", 4, "sizeof(uint32)"), ("n", 6, "0x6"), ("n", 2, "1 << 1")]
FORMS += [("e", k, None) for k in EXPRS]
FORMS += [("shadow", None, None), ("0", None, None), ("eof", None, None)]
DIMS = ["1d", "[2][x]", "[x][2]", "[x][3][2]", "[2][3][x]"]
CASES = [(e, f, d) for e in ELEMS for f in FORMS for d in DIMS
         if not (f[0] == "0" and (e not in NULL_OK or d in ("[x][2]", "[x][3][2]")))
         and not (f[0] == "eof" and d in ("[2][x]", "[2][3][x]"))]


class Src(gen.Src):
    """Draws the header fields from a list, the rest at random."""

    def __init__(self, rng, cfg, head, nulls=None):
        super().__init__(rng, cfg)
        self.head = list(head)
        self.nulls = nulls

    def nullcount(self):
        return self.nulls if self.nulls is not None else super().nullcount()

    def scalar(self, t, cfg, hint=None):
        if self.head and t.kind != "leb":
            return M.enc_int(self.head.pop(0), t.size, cfg.order, t.signed)
        return super().scalar(t, cfg, hint)


def build(elem, form, dim, align):
    mk = ELEMS[elem]
    et = mk(align) if elem.startswith(("struct", "union")) else mk()

    def arr(inner):
        if form[0] == "n":
            return M.Ar(inner, "n", form[1], form[2])
        if form[0] == "e":
            return M.Ar(inner, "e", EXPRS[form[1]])
        if form[0] == "shadow":
            return M.Ar(inner, "e", ex("K", lambda x: x["K"], "K"))
        return M.Ar(inner, form[0])

    n = lambda t, c: M.Ar(t, "n", c)  # noqa: E731
    if dim == "1d":
        t = arr(et)
    elif dim == "[2][x]":
        t = n(arr(et), 2)
    elif dim == "[x][2]":
        t = arr(n(et, 2))
    elif dim == "[x][3][2]":
        t = arr(n(n(et, 2), 3))
    else:
        t = n(n(arr(et), 3), 2)
    F = M.Fd
    en = M.En("EE", SC["uint8"], False, [("E0", 0), ("E2", 2)], [("E0", "0"), ("E2", "2")])
    fs = []
    if form[0] in ("e", "shadow"):
        fs = [F("n", SC["uint8"]), F("s", SC["int16"]), F("b", SC["uint8"], 4), F("c", SC["uint8"], 4), F("w", SC["uint24"]), F("ee", en)]
        if form[0] == "shadow":
            fs.append(F("K", SC["uint8"]))
    else:
        fs = [F("h", SC["uint8"])]
    fs.append(F("x", t))
    if form[0] != "eof":
        fs += [F("t0", SC["uint8"]), F("t1", SC["uint16"])]
    return M.St("R", fs, False, align)


def heads(rng, form):
    """Header values: n, s, unit(b, c), w, ee[, K]."""
    if form[0] not in ("e", "shadow"):
        return [[rng.randrange(256)]]
    out = []
    for n, s in ((0, 0), (1, -1), (2, 2), (3, -3), (5, 4), (7, 1), (4, -0xE0F), (6, -0x7FFF)):
        h = [n, s, rng.choice((0x00, 0x12, 0x21, 0x33, 0x40, 0x04)), rng.choice((0, 1, 2, 5, 8)), rng.choice((0, 2, 3))]
        if form[0] == "shadow":
            h.append(rng.choice((0, 1, 2, 5)))
        out.append(h)
    return out


def judge(ctx, root, cfg, loaded, data, v, e, q, what):
    mask = bytes(q.mask[:e]) + bytes(max(0, e - len(q.mask)))
    exp = masked(data, e, mask)
    for comp, (cs, T) in loaded.items():
        det = lambda **kw: witness(root, cfg, comp, data, case=what, **kw)  # noqa: E731
        s = BytesIO(data)
        o = call(T, s)
        if not ctx.check(not isinstance(o, Err), "array-parse", lambda: det(raised=repr(o), expected=repr(v))):
            continue
        got = canon(root, o)
        ctx.ev("arrays_parsed")
        ctx.check(got == v, "array-value", lambda: det(expected=repr(v), got=repr(got)))
        ctx.check(s.tell() == e, "array-position", lambda: det(expected=e, got=s.tell()))
        if isinstance(got, dict) and got == v and not isinstance(v.get("x"), (bytes, str, type(None))):
            ctx.check(len(o.x) == len(v["x"]), "array-length", lambda: det(expected=len(v["x"]), got=len(o.x)))
        w = call(o.dumps)
        ctx.check(w == exp, "array-dump", lambda: det(expected=exp.hex(), got=repr(w)))
    return exp


def w_product(ctx, i):
    rng = ctx.rng
    elem, form, dim = CASES[i % len(CASES)]
    if form[0] == "e" and dim in ("[2][3][x]", "[x][3][2]") and i < len(CASES) and rng.random() < 0.5:
        return
    fk = {"shadow": "e"}.get(form[0], form[0])
    cfgs = [(o, a) for o in "<>" for a in (False, True)]
    if not ctx.thorough():
        cfgs = rng.sample(cfgs, 2)
    for endian, align in cfgs:
        root = build(elem, form, dim, align)
        cfg = M.Cfg(endian, SC[rng.choice(("uint32", "uint64", "uint16"))], {"K": K})
        loaded = load(ctx, root, cfg)
        if loaded is None:
            return
        ctx.ev("form:" + fk)
        if dim != "1d":
            ctx.ev("multi_dim")
        if form[0] == "shadow":
            ctx.ev("shadowed_constant")
        hs = heads(rng, form)
        if form[0] in ("0", "eof"):
            hs = hs * 4
        for k, h in enumerate(hs):
            if form[0] == "e" and form[1] == "-s" and h[1] == -0xE0F and dim != "1d" and elem.startswith(("struct", "union")):
                continue  # thousands of rows of structures
            nulls = (0, 1, 3, 6)[k % 4]
            p = M.Parser(cfg, b"", Src(rng, cfg, h, nulls))
            try:
                p.parse(root, 0)
                data = bytes(p.data)
                if form[0] == "eof" and k % 2 and M.sizeof(root.fields[-1].t.elem, cfg) not in (None, 1):
                    # an incomplete element at the end of the stream
                    n = M.sizeof(root.fields[-1].t.elem, cfg)
                    if n > 1:
                        data += rng.randbytes(rng.randrange(1, n))
                        ctx.ev("partial_tail")
                q = M.Parser(cfg, data)
                v, e = q.parse(root, 0)
            except (M.OutOfDomain, M.Short):
                ctx.ev("skipped_inputs")
                continue
            if q.noncanon:
                ctx.ev("skipped_inputs")
                continue
            if form[0] == "e":
                n = EXPRS[form[1]].fn({**cfg.consts, **{a: b for a, b in v.items() if isinstance(b, int)}})
                ctx.ev("negative_length" if n < 0 else "zero_length" if n == 0 else "positive_length")
                if n == -0xE0F:
                    ctx.ev("sentinel_lengths")
            elif form[0] == "n":
                ctx.ev("negative_length" if form[1] < 0 else "zero_length" if form[1] == 0 else "positive_length")
            elif form[0] == "eof" and not v["x"]:
                ctx.ev("eof_empty")
            if form[0] != "eof":
                data += rng.choice((b"", rng.randbytes(3)))
            ctx.key(elem, form, dim, endian, align, data)
            exp = judge(ctx, root, cfg, loaded, data, v, e, q, f"{elem} {form} {dim}")
            if not elem.startswith("union"):
                for comp, (cs, T) in loaded.items():
                    w = call(lambda: make(T, root, v).dumps())
                    ctx.check(w == M.encode(root, v, cfg)[0], "array-dump-constructed", lambda: witness(
                        root, cfg, comp, data, value=repr(v), got=repr(w), expected=M.encode(root, v, cfg)[0].hex()))
            if k == 0:
                refusals(ctx, root, cfg, loaded, v, data)
    if i % 97 == 0:
        ctx.sample(witness(root, cfg, element=elem, form=repr(form), dims=dim))


def fixed_shape(t):
    """Every dimension is fixed and the elements are not characters."""
    while isinstance(t, M.Ar):
        if t.form != "n":
            return False
        if isinstance(t.elem, M.Sc) and t.elem.kind in ("char", "wchar"):
            return False
        t = t.elem
    return True


def refusals(ctx, root, cfg, loaded, v, data):
    """A fixed-size array with a different number of elements is refused, at every depth."""
    f = root.fields[1]
    t = f.t
    if f.name != "x" or not isinstance(t, M.Ar) or t.form != "n" or isinstance(t.elem, M.Sc) and t.elem.kind in ("char", "wchar"):
        return
    n = max(0, t.count)
    for comp, (cs, T) in loaded.items():
        F = T.fields["x"].type
        good = make(F, t, v["x"])
        one = good[0] if n else F.type.__default__()
        for m in {max(0, n - 1), n + 1, 0, 2 * n + 1} - {n}:
            bad = (list(good) + [one] * (m + 1))[:m]
            for how, fn in (("array type", lambda: F.dumps(bad)), ("structure", lambda: T(**{"x": bad}).dumps()),
                            ("assignment", lambda: assigned(T, data, bad))):
                r = call(fn)
                ctx.ev("size_refused")
                ctx.check(isinstance(r, Err), "wrong-size-accepted", lambda: witness(
                    root, cfg, comp, data, how=how, count=m, expected=n, got=repr(r)))
        if isinstance(t.elem, M.Ar) and fixed_shape(t.elem) and n:
            inner = list(good)
            k = ctx.rng.randrange(len(inner))
            inner[k] = list(inner[k]) + [t and (inner[k][0] if inner[k] else F.type.type.__default__())]
            r = call(lambda: F.dumps(inner))
            ctx.ev("size_refused")
            ctx.check(isinstance(r, Err), "wrong-inner-size-accepted", lambda: witness(root, cfg, comp, data, index=k, got=repr(r)))


def assigned(T, data, bad):
    o = T(data)
    o.x = bad
    return o.dumps()


# ------------------------------------------------------------------------------------------------ array types by hand


def w_bare(ctx, i):
    """T[n], T[None] and T[a][b] outside structures, from bytes, streams at an offset and typedefs."""
    rng = ctx.rng
    elem = sorted(ELEMS)[i % len(ELEMS)]
    al = rng.random() < 0.5
    et = ELEMS[elem](al) if elem.startswith(("struct", "union")) else ELEMS[elem]()
    cfg = M.Cfg(rng.choice("<>!=@"), SC[rng.choice(("uint32", "uint64"))])
    cs = lib.new_cs(cfg)
    for t in M.deps(et):
        cs.load(M.enum_text(t) if isinstance(t, M.En) else M.struct_text(t) + ";", align=bool(getattr(t, "align", False)),
                compiled=rng.random() < 0.5)
    T = cs.resolve(et.name) if not isinstance(et, M.Pt) else None
    if isinstance(et, M.Pt):
        cs.load("typedef uint32 *PT1; typedef char **PT2;")
        T = cs.resolve("PT1" if elem == "ptr" else "PT2")
    shapes = [M.Ar(et, "n", c) for c in (0, 1, 2, 5, -4)] + [M.Ar(M.Ar(et, "n", 3), "n", 2), M.Ar(M.Ar(M.Ar(et, "n", 1), "n", 2), "n", 3)]
    if elem in NULL_OK:
        shapes += [M.Ar(et, "0"), M.Ar(M.Ar(et, "0"), "n", 2)]
    for t in shapes:
        def lift(x):
            if not isinstance(x, M.Ar):
                return T
            return lift(x.elem)[x.count if x.form == "n" else None]

        A = lift(t)
        if t.elem is et and rng.random() < 0.5 and not isinstance(et, M.Pt) and et.name:
            nm = f"TD{shapes.index(t)}"
            cs.load(f"typedef {et.name} {nm}[{M.dim_text(t)}];")
            A = cs.resolve(nm)
        d = gen.gen_data(rng, t, cfg)
        if d is None:
            continue
        data, v, e, q = d
        pre = rng.randbytes(rng.choice((0, 8, 16, 24)))
        det = lambda **kw: {"type": repr(t), "endian": cfg.endian, "input": data.hex(), "offset": len(pre), **kw}  # noqa: E731
        s = BytesIO(pre + data + b"\x77\x88")
        s.seek(len(pre))
        o = call(A, s)
        ctx.ev("bare")
        got = M_canon(t, o)
        ctx.check(got == v and s.tell() == len(pre) + e, "bare-value",
                  lambda: det(expected=repr(v), got=repr(got), tell=s.tell(), end=len(pre) + e))
        o2 = call(A, data)
        ctx.check(M_canon(t, o2) == v, "bare-value", lambda: det(how="bytes", expected=repr(v), got=repr(o2)))
        mask = bytes(q.mask[:e]) + bytes(max(0, e - len(q.mask)))
        exp = masked(data, e, mask)
        for how, fn in (("value.dumps", lambda: o.dumps()), ("type.dumps", lambda: A.dumps(o))):
            w = call(fn)
            ctx.check(w == exp, "bare-dump", lambda: det(how=how, expected=exp.hex(), got=repr(w)))
        w = call(lambda: A.dumps(make(A, t, v)))
        if not elem.startswith("union"):
            ctx.check(w == M.encode(t, v, cfg)[0], "bare-dump-constructed", lambda: det(got=repr(w)))
        if fixed_shape(t) and not isinstance(o, Err):
            for bad in (list(o)[:-1] if len(o) else [T.__default__()], list(o) + [T.__default__()]):
                r = call(A.dumps, bad)
                ctx.ev("size_refused")
                ctx.check(isinstance(r, Err), "wrong-size-accepted", lambda: det(count=len(bad), got=repr(r)))
        ctx.key("bare", repr(t), cfg.endian, data)


def M_canon(t, o):
    return o if isinstance(o, Err) else call(M.canon, t, o)


def w_long(ctx, i):
    """Long arrays: counts beyond one byte, two bytes, and the block sizes of the bulk readers."""
    rng = ctx.rng
    elem = ("uint8", "int16", "uint24", "uint32", "int48", "uint64", "uint128", "char", "wchar", "float", "enum uint8", "struct ints",
            "uleb128", "struct bits", "flag uint32", "int8", "ptr")[i % 17]
    n = (255, 256, 257, 1000, 4096, 5000, 8193, 65537)[i // 17 % 8]
    if n > 60000:
        n += rng.choice((-2, -1, 0, rng.randrange(9000)))
    et = ELEMS[elem]()
    form = ("n", "e", "0", "eof")[(i // 136 + i + i // 17) % 4]
    if form == "0" and elem not in NULL_OK:
        form = "n"
    F = M.Fd
    fs = [F("n", SC["uint32"])]
    if form == "n":
        fs.append(F("x", M.Ar(et, "n", n)))
    elif form == "e":
        fs.append(F("x", M.Ar(et, "e", ex("n", lambda x: x["n"], "n"))))
    else:
        fs.append(F("x", M.Ar(et, form)))
    if form != "eof":
        fs.append(F("t", SC["uint32"]))
    root = M.St("R", fs, False, False)
    cfg = M.Cfg(rng.choice("<>"))
    cfg.big = n
    loaded = load(ctx, root, cfg)
    if loaded is None:
        return
    p = M.Parser(cfg, b"", Src(rng, cfg, [n], n))
    p.parse(root, 0)
    data = bytes(p.data)
    q = M.Parser(cfg, data)
    v, e = q.parse(root, 0)
    if q.noncanon:
        return
    ctx.ev("long_arrays")
    ctx.key("long", elem, n, form)
    judge(ctx, root, cfg, loaded, data, v, e, q, f"{elem} x {n} {form}")


def w_program(ctx, i):
    """Generated programs rich in arrays (nested structures with their own dynamic arrays, several per structure)."""
    rng = ctx.rng
    prof = ({"array": 0.7, "dyn": 0.7, "eof": 0.25}, {"array": 0.6, "dyn": 0.5, "nested": 0.4, "depth": 3, "multidim": 0.5},
            {"array": 0.7, "dyn": 0.6, "align": True, "leb": 0.15}, {"array": 0.75, "dyn": 0.8, "bits": 0.35, "enum": 0.3})[i % 4]
    root, cfg = program(ctx, prof, consts=0.6) if i % 12 != 11 else gen.big_program(
        rng, shape=rng.choice(("array", "length", "null", "eof", "rows", "records", "ends", "strings", "table", "chars")))
    loaded = load(ctx, root, cfg)
    if loaded is None:
        return
    count_features(ctx, root)
    for _ in range(3 if not cfg.big else 1):
        d = gen.gen_data(rng, root, cfg)
        if d is None:
            continue
        data, v, e, q = d
        ctx.key(M.program_text(root, cfg.consts), cfg.endian, data)
        judge(ctx, root, cfg, loaded, data, v, e, q, "program")


# ------------------------------------------------------------------------------------------------ precedence of names


def w_names(ctx, i):
    """Which value a name in a length denotes: the field parsed before it, else the constant; own structure only."""
    rng = ctx.rng
    comp = bool(i & 1)
    e = rng.choice("<>")
    cs = cstruct(endian=e)
    a, b, c = rng.randrange(4), rng.randrange(4), rng.randrange(1, 4)
    # N is a constant everywhere; inside `in` it is a field; in `after` the field only follows the array
    r = call(cs.load, f"""
    #define N {c}
    struct inner {{ uint8 N; uint8 x[N]; }};
    struct plain {{ uint8 y[N]; uint8 t; }};
    struct after {{ uint8 y[N]; uint8 N; uint8 z[N]; }};
    struct outer {{ uint8 N; inner i; uint8 x[N]; plain p; uint8 e[N + N]; }};
    """, compiled=comp)
    det = lambda **kw: {"mode": mode_name(comp), "N": c, "outer": a, "inner": b, **kw}  # noqa: E731
    if not ctx.check(not isinstance(r, Err), "names-load", lambda: det(raised=repr(r))):
        return
    data = bytes([a, b]) + b"\x01" * b + b"\x02" * a + b"\x03" * c + b"\x04" + b"\x05" * (2 * a)
    s = BytesIO(data + b"\xee")
    o = call(cs.outer, s)
    ctx.ev("shadowed_constant")
    ok = not isinstance(o, Err) and (list(o.i.x), list(o.x), list(o.p.y), o.p.t, list(o.e)) == (
        [1] * b, [2] * a, [3] * c, 4, [5] * (2 * a)) and s.tell() == len(data)
    ctx.check(ok, "name-precedence", lambda: det(got=repr(o), input=data.hex()))
    ctx.check(isinstance(o, Err) or call(o.dumps) == data, "name-precedence-dump", lambda: det(got=repr(call(o.dumps))))
    data = b"\x07" * c + bytes([b]) + b"\x08" * b
    o = call(cs.after, data)
    ctx.check(not isinstance(o, Err) and (list(o.y), o.N, list(o.z)) == ([7] * c, b, [8] * b), "name-later-field",
              lambda: det(got=repr(o), input=data.hex()))
    # lengths that mix the constant with fields of their own structure, inside structures that have a field of that name
    k, k2 = rng.randrange(3), rng.randrange(3)
    r = call(cs.load, """
    struct mixed { uint8 k; uint8 y[N + k]; uint8 t; };
    struct around { uint8 N; mixed m; mixed a[2]; struct { uint8 k; uint8 y[N * 2 - k]; } s; uint8 k; uint8 e[N + k]; };
    struct leak { uint8 k; inner i; uint8 x[N + k]; uint8 t; };
    struct deep { uint16 N; uint8 k; struct { uint8 q; struct { uint8 k; mixed m; uint8 z[(N + 1) * k]; } b; } a; };
    """, compiled=comp)
    if ctx.check(not isinstance(r, Err), "names-load", lambda: det(raised=repr(r))):
        mx = lambda k: (bytes([k]) + bytes(range(10, 10 + c + k)) + b"\x77", (k, list(range(10, 10 + c + k)), 0x77))  # noqa: E731
        m, a2 = mx(k), (mx(k2), mx(0))
        w = lambda o: (o.k, list(o.y), o.t)  # noqa: E731
        n2 = max(0, 2 * c - k)
        data = bytes([a + 4]) + m[0] + a2[0][0] + a2[1][0] + bytes([k]) + b"\x09" * n2 + bytes([k2]) + b"\x0a" * (a + 4 + k2)
        s = BytesIO(data + b"\xee")
        o = call(cs.around, s)
        ctx.ev("mixed_lengths")
        got = o if isinstance(o, Err) else call(lambda: (w(o.m), [w(x) for x in o.a], list(o.s.y), list(o.e), s.tell()))
        want = (m[1], [a2[0][1], a2[1][1]], [9] * n2, [10] * (a + 4 + k2), len(data))
        ctx.check(got == want, "name-precedence-nested", lambda: det(k=k, k2=k2, input=data.hex(), expected=repr(want), got=repr(got)))
        data = bytes([k, b]) + b"\x01" * b + b"\x02" * (c + k) + b"\x03"
        o = call(cs.leak, data)
        got = o if isinstance(o, Err) else call(lambda: (o.i.N, list(o.i.x), list(o.x), o.t))
        ctx.check(got == (b, [1] * b, [2] * (c + k), 3), "name-precedence-leak", lambda: det(k=k, input=data.hex(), got=repr(got)))
        data = (200).to_bytes(2, "little" if e == "<" else "big") + b"\x63\x01" + bytes([k2]) + m[0] + b"\x04" * ((c + 1) * k2)
        s = BytesIO(data + b"\xee")
        o = call(cs.deep, s)
        got = o if isinstance(o, Err) else call(lambda: (o.N, w(o.a.b.m), list(o.a.b.z), s.tell()))
        ctx.check(got == (200, m[1], [4] * ((c + 1) * k2), len(data)), "name-precedence-deep", lambda: det(k=k, k2=k2, input=data.hex(), got=repr(got)))
    # a constant defined, used, then redefined: each definition keeps what was in force when it was loaded
    cs2 = cstruct(endian=e)
    cs2.load(f"#define M {a + 1}\nstruct one {{ uint8 x[M]; }};", compiled=comp)
    cs2.load(f"#define M {b + 5}\nstruct two {{ uint8 x[M]; }};", compiled=comp)
    ctx.check((len(cs2.one), len(cs2.two)) == (a + 1, b + 5), "constant-redefined", lambda: det(got=(len(cs2.one), len(cs2.two))))
    o = call(cs2.two, bytes(range(20)))
    ctx.check(not isinstance(o, Err) and list(o.x) == list(range(b + 5)), "constant-redefined", lambda: det(got=repr(o)))
    ctx.key("names", comp, a, b, c, e, k, k2)


# ------------------------------------------------------------------------------------------- lengths without a value

NOVALUE = (("n / z", 2), ("n % z", 0), ("n << (z - 1)", 2), ("n >> (z - 1)", 2), ("nEOF", None), ("EOFn", None), ("EOF + 1", None), ("n + EOF", None), ("-EOF", None),
           ("(EOF)", "any"), ("n * (8 / z)", 16), ("n + unknown", None), ("sizeof(missing) + n", None), ("n / EOFZ", None), ("NEOF + n", 7), ("later", None),
           ("n / (z - z)", None), ("inner", None), ("i.inner", "any"))


def w_failing(ctx, i):
    """A length that has no value never turns into some other length."""
    rng = ctx.rng
    text, good = NOVALUE[i % len(NOVALUE)]
    et = rng.choice(("uint8", "char", "wchar", "uint32", "uint24", "E", "S", "double", "uint8 *", "uleb128"))
    comp = rng.random() < 0.5
    align = rng.random() < 0.3
    star = "*" if et.endswith("*") else ""
    dim = rng.choice(("", "", "[2]"))
    text0 = (f"enum E : uint8 {{ A = 1 }}; struct S {{ uint8 q; }}; struct I {{ uint8 inner; }}; #define NEOF 5\n#define EOFZ 0\n"
             f"struct T {{ uint8 n; uint8 z; I i; {et.rstrip(' *')} {star}x[{text}]{dim}; uint8 later; }};").replace("; #", ";\n#")
    det = lambda **kw: {"definition": text0, "mode": mode_name(comp), "aligned": align, **kw}  # noqa: E731
    cs = cstruct(endian=rng.choice("<>"))
    r = call(cs.load, text0, compiled=comp, align=align)
    ctx.ev("failing_lengths")
    ctx.key("failing", text, et, dim, comp, align)
    if isinstance(r, Err):
        ctx.check(good is None or good == "any", "length-refused", lambda: det(raised=repr(r)))
        return
    for z, n in ((0, 2), (1, 2)):
        data = bytes([n, z, 3]) + b"\x01" * rng.choice((0, 3, 40, 400))
        o = call(cs.T, data)
        if good == "any":
            continue
        expect_ok = good is not None and (z == 1 or "z" not in text)
        if not expect_ok:
            ctx.check(isinstance(o, Err), "length-invented", lambda: det(input=data.hex(), got=repr(o)))
        elif not isinstance(o, Err):
            ctx.check(len(o.x) == good, "length-wrong", lambda: det(input=data.hex(), expected=good, got=repr(o)))
        else:
            ctx.check(len(data) < 200, "length-refused", lambda: det(input=data.hex(), got=repr(o)))


WORKLOADS = {
    "failing": (w_failing, 20 * len(NOVALUE), 200 * len(NOVALUE)),
    "product": (w_product, len(CASES), 3 * len(CASES)),
    "bare": (w_bare, 6 * len(ELEMS), 60 * len(ELEMS)),
    "long": (w_long, 136, 680),
    "program": (w_program, 1200, 20000),
    "names": (w_names, 120, 600),
}
