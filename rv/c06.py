"""C06 bit-fields: every parsed value against independent slicing of the storage unit, and writing as the exact inverse."""
from __future__ import annotations

import itertools

from . import gen, lib
from . import model as M
from .boot import cstruct
from .common import (MODES, BytesIO, Err, call, canon, count_features, ends_with_eof, load, make, masked, mode_name, program, witness)

PID = "C06"
ANCHORS = ["bitbuffer.py", "types/structure.py", "compiler.py"]
RULE = ("A case is a sequence of bit-field widths over one or several storage types (alone, next to other fields, or in a generated "
        "program) with unit contents; every parsed value is compared with a direct slice of the unit and every dump with the "
        "units assembled from the values.  Non-trivial: at least one unit was read and written in both readers; distinct by "
        "width sequence, storage types, order, alignment and contents.")
ASSUMPTIONS = ["wchar bit-fields are outside the domain", "values that do not fit may be refused; if accepted they may not disturb "
               "other fields"]
REQUIRED = ["units_read", "units_written", "compositions", "straddles_refused", "straddle_free_accepted", "isolated_ones", "switch_units",
            "enum_units", "flag_units", "signed_units", "top_bit_fields", "neighbours", "overflow_probes", "union_units", "incremental", "buffer_units", "straddled_reads"]

ENDS = "<>!=@"


ORDER = {e: M.Cfg(e).order for e in ENDS}


def order(e):
    return ORDER[e]


def slices(widths, nb, e):
    """(shift, width) of every field of one unit."""
    out, used = [], 0
    for w in widths:
        out.append((used if order(e) == "little" else nb - used - w, w))
        used += w
    return out


def units_of(widths, nb):
    """Greedy split of a width list into units; None when a field would straddle."""
    out, left = [], 0
    for w in widths:
        if w > nb:
            return None
        if left == 0:
            out.append([])
            left = nb
        if w > left:
            return None
        out[-1].append(w)
        left -= w
    return out


def compositions(n):
    """All ordered ways to cut n bits into fields."""
    for cuts in range(1 << (n - 1)):
        out, run = [], 1
        for i in range(n - 1):
            if cuts >> i & 1:
                out.append(run)
                run = 1
            else:
                run += 1
        out.append(run)
        yield tuple(out)


def val(v):
    return getattr(v, "value", v)


class Unit:
    """One definition with bit-fields f0.. of one storage type, in both readers."""

    def __init__(self, ctx, tname, pre, widths, e, align, base=None, flag=None):
        self.ctx, self.widths, self.e, self.align = ctx, widths, e, align
        self.base = base or tname
        self.t = M.SC[self.base]
        self.nb = self.t.size * 8
        self.units = units_of(widths, self.nb)
        self.text = f"{pre}struct X {{ " + " ".join(f"{tname} f{i} : {w};" for i, w in enumerate(widths)) + " };"
        self.enum = flag is not None
        self.X = {}
        for comp in MODES:
            cs = cstruct(endian=e)
            r = call(cs.load, self.text, compiled=comp, align=align)
            if self.units is None:
                ctx.ev("straddles_refused")
                ctx.check(isinstance(r, Err), "straddle-accepted", self.det(comp))
                continue
            ctx.ev("straddle_free_accepted")
            if not ctx.check(not isinstance(r, Err), "legal-sequence-refused", self.det(comp, raised=repr(r))):
                continue
            self.X[comp] = cs.resolve("X")
        for comp, X in self.X.items():
            size = len(self.units) * self.t.size
            if align:
                size = M.up(size, self.t.align)
            # consecutive units of the aligned odd sizes are padded; the generic model decides those
            m = M.St("X", [M.Fd(f"f{i}", self.t, w) for i, w in enumerate(widths)], False, align)
            msize, _, offs = M.layout(m, M.Cfg(e))
            self.offs = [o for o, first in offs if first]
            ctx.check(X.size == msize, "bit-struct-size", self.det(comp, expected=msize, got=X.size))
            self.size = msize

    def det(self, comp, **kw):
        return {"definition": self.text, "endian": self.e, "aligned": self.align, "mode": mode_name(comp), **kw}

    def image(self, contents):
        buf = bytearray(self.size)
        for u, o in zip(contents, self.offs):
            buf[o : o + self.t.size] = M.enc_int(u, self.t.size, order(self.e), False)
        return bytes(buf)

    def expect(self, contents):
        vals, mask = [], []
        for u, ws in zip(contents, self.units):
            m = 0
            for sh, w in slices(ws, self.nb, self.e):
                vals.append((u >> sh) & ((1 << w) - 1))
                m |= ((1 << w) - 1) << sh
            mask.append(m)
        return vals, [u & m for u, m in zip(contents, mask)]

    def run(self, contents, construct=True, pad=0):
        ctx = self.ctx
        img = self.image(contents)
        vals, kept = self.expect(contents)
        out = self.image(kept)
        for comp, X in self.X.items():
            o = call(X, img)
            d = lambda **kw: self.det(comp, input=img.hex(), expected=vals, **kw)  # noqa: E731
            if not ctx.check(not isinstance(o, Err), "bits-parse", lambda: d(got=repr(o))):
                continue
            got = [val(getattr(o, f"f{i}")) for i in range(len(vals))]
            ctx.ev("units_read", len(self.units))
            ctx.check(got == vals, "bits-value", lambda: d(got=got))
            ctx.check(all(type(g) is not bytes and 0 <= g < 1 << w for g, w in zip(got, self.widths)), "bits-range", lambda: d(got=got))
            w = call(o.dumps)
            ctx.ev("units_written", len(self.units))
            ctx.check(w == out, "bits-dump", lambda: d(dump=repr(w), wanted=out.hex()))
            if construct:
                E = X.__fields__[0].type
                mk = (lambda v: E(v)) if self.enum else (lambda v: v)
                w = call(lambda: X(**{f"f{i}": mk(v) for i, v in enumerate(vals)}).dumps())
                ctx.ev("units_written", len(self.units))
                ctx.check(w == out, "bits-dump-constructed", lambda: d(dump=repr(w), wanted=out.hex()))


def decl(kind, base):
    """(type name, preamble, base, flag: True/False for an enumeration, None otherwise) of a storage kind."""
    if kind == "plain":
        return base, "", base, None
    if kind == "typedef":
        return "tdef", f"typedef {base} tdef; ", base, None
    if kind == "enum":
        return "EN", f"enum EN : {base} {{ Z = 0, A = 1, B = 3, C = 5 }}; ", base, False
    return "FL", f"flag FL : {base} {{ P = 1, Q = 2, R = 4 }}; ", base, True


def note(ctx, kind, t):
    if kind == "enum":
        ctx.ev("enum_units")
    elif kind == "flag":
        ctx.ev("flag_units")
    if t.signed:
        ctx.ev("signed_units")


KINDS8 = [("plain", "uint8"), ("plain", "int8"), ("plain", "char"), ("enum", "uint8"), ("enum", "int8"), ("flag", "uint8"),
          ("flag", "int8"), ("typedef", "uint8")]


def full8():
    return [(k, b, e) for k, b in KINDS8 for e in "<>"]


def w_comp8(ctx, i):
    """All 128 compositions of an 8-bit unit x all 256 unit contents."""
    k, b, e = full8()[i // 8]
    part = i % 8
    for ci, ws in enumerate(compositions(8)):
        if ci % 8 != part:
            continue
        name, pre, base, flag = decl(k, b)
        t = M.SC[b]
        u = Unit(ctx, name, pre, ws, e, bool(ci & 8), base, flag)
        note(ctx, k, t)
        ctx.ev("compositions")
        ctx.key("comp8", k, b, e, ws)
        for c in range(256):
            u.run([c], construct=c % 4 == ci % 4)
        if 1 < len(ws):
            # unused bits at the end of the unit
            v = Unit(ctx, name, pre, ws[:-1], e, False, base, flag)
            for c in range(0, 256, 5):
                v.run([c])
        # a second unit right behind
        v = Unit(ctx, name, pre, ws + ws[::-1], e, False, base, flag)
        for c in range(7):
            v.run([ctx.rng.getrandbits(8), ctx.rng.getrandbits(8)])
    ctx.sample({"storage": f"{k} {b}", "endian": e, "example": u.text})


def w_comp16(ctx, i):
    """Compositions of a 16-bit unit (all of them in the thorough tier)."""
    per = 64 if not ctx.thorough() else 128
    ws_all = COMP16
    rng = ctx.rng
    for j in range(per):
        ci = (i * per + j) % len(ws_all) if ctx.thorough() else rng.randrange(len(ws_all))
        ws = ws_all[ci]
        k, b = rng.choice((("plain", "uint16"), ("plain", "int16"), ("enum", "uint16"), ("enum", "int16"), ("flag", "uint16")))
        name, pre, base, flag = decl(k, b)
        e = rng.choice(ENDS)
        u = Unit(ctx, name, pre, ws, e, rng.random() < 0.3, base, flag)
        note(ctx, k, M.SC[b])
        ctx.ev("compositions")
        ctx.key("comp16", k, b, e, ws)
        for c in (0, 0xFFFF, 0x8000, 1, 0x5555, 0xAAAA, rng.getrandbits(16), rng.getrandbits(16)):
            u.run([c])


COMP16 = list(compositions(16))

# ------------------------------------------------------------------------------------------- straddling


def w_straddle(ctx, i):
    """All width sequences up to length 4 over an 8-bit unit (complete); random ones over the other widths."""
    rng = ctx.rng
    if i < 64:
        first = i % 8 + 1
        second = i // 8 + 1
        seqs = [(first, second)] + [(first, second, c) for c in range(1, 10)]
        if ctx.thorough():
            seqs += [(first, second, c, d) for c in range(1, 9) for d in range(1, 9)]
        else:
            seqs += [(first, second, rng.randint(1, 8), rng.randint(1, 8)) for _ in range(6)]
        name = "uint8"
    else:
        name = rng.choice(("uint16", "int32", "uint24", "int64", "uint48", "uint128", "char", "int8"))
        nb = M.SC[name].size * 8
        seqs = []
        for _ in range(12):
            n = rng.randint(1, 5)
            seqs.append(tuple(rng.choice((rng.randint(1, nb), rng.randint(1, 4), nb, nb // 2, nb + 1, nb - 1 or 1)) for _ in range(n)))
    for ws in seqs:
        u = Unit(ctx, name, "", ws, rng.choice(ENDS), rng.random() < 0.3)
        ctx.key("straddle", name, ws)
        if u.units is not None:
            u.run([rng.getrandbits(u.nb) for _ in u.units])
    ctx.sample({"type": name, "sequences": seqs[:5]})


# ------------------------------------------------------------------------------------------- every position and width

ISO = [(b, e) for b in ("uint8", "int8", "uint16", "int16", "uint24", "int24", "uint32", "int32", "uint48", "int48", "uint64", "int64",
                        "uint128", "int128") for e in "<>"]


def w_isolated(ctx, i):
    """A field of every width at every position of every unit: ones in it and nowhere else, and the complement."""
    rng = ctx.rng
    b, e = ISO[i % len(ISO)]
    t = M.SC[b]
    nb = t.size * 8
    pairs = [(p, w) for p in range(nb) for w in range(1, nb - p + 1)]
    quick = 45
    if not ctx.thorough() and len(pairs) > quick:
        must = [(0, nb), (nb - 1, 1), (0, nb - 1), (1, nb - 1), (0, 1)]
        pairs = must + rng.sample(pairs, quick - len(must))
    else:
        r = i // len(ISO)
        pairs = pairs[r::12]
    for p, w in pairs:
        ws = tuple(x for x in (p, w, nb - p - w) if x)
        u = Unit(ctx, b, "", ws, e, rng.random() < 0.2)
        note(ctx, "plain", t)
        sh = p if order(e) == "little" else nb - p - w
        ones = ((1 << w) - 1) << sh
        if p + w == nb:
            ctx.ev("top_bit_fields")
        for c in (ones, ~ones & ((1 << nb) - 1), 1 << sh, 1 << (sh + w - 1), (1 << nb) - 1, rng.getrandbits(nb)):
            u.run([c])
        ctx.ev("isolated_ones")
        ctx.key("iso", b, e, p, w)


# ------------------------------------------------------------------------------------------- mixed storage types


def w_mixed(ctx, i):
    """Runs over several storage types with other fields between them, checked against the layout-independent slicer."""
    rng = ctx.rng
    prof = ({"bits": 0.85, "dyn": 0.2}, {"bits": 0.9, "align": True, "array": 0.15, "dyn": 0.6}, {"bits": 0.8, "nested": 0.4, "depth": 3},
            {"bits": 0.95, "fields": (6, 16), "enum": 0.05}, {"bits": 0.7, "leb": 0.25, "align": True},
            {"bits": 0.8, "union": 0.5, "nested": 0.4})[i % 6]
    root, cfg = program(ctx, prof)
    feats = M.features(root)
    if "bits" not in feats:
        return
    loaded = load(ctx, root, cfg)
    if loaded is None:
        return
    count_features(ctx, root)
    ctx.ev("neighbours")
    ctx.ev("switch_units")
    for k in range(3):
        d = gen.gen_data(rng, root, cfg)
        if d is None:
            continue
        data, v, e, q = d
        mask = bytes(q.mask[:e]) + bytes(max(0, e - len(q.mask)))
        exp = masked(data, e, mask)
        ctx.key(M.program_text(root, cfg.consts), cfg.endian, data)
        for comp, (cs, T) in loaded.items():
            det = lambda **kw: witness(root, cfg, comp, data, **kw)  # noqa: E731
            s = BytesIO(data)
            o = call(T, s)
            if not ctx.check(not isinstance(o, Err), "parse-failed", lambda: det(raised=repr(o))):
                continue
            got = canon(root, o)
            ctx.ev("units_read")
            ctx.check(got == v and s.tell() == e, "mixed-value", lambda: det(expected=repr(v), got=repr(got), tell=s.tell(), end=e))
            w = call(o.dumps)
            ctx.ev("units_written")
            ctx.check(w == exp, "mixed-dump", lambda: det(expected=exp.hex(), got=repr(w)))
            if not any(isinstance(x, M.St) and x.union for x in all_types(root)):
                enc, _ = M.encode(root, v, cfg)
                w = call(lambda: make(T, root, v).dumps())
                ctx.check(w == enc, "mixed-dump-constructed", lambda: det(expected=enc.hex(), got=repr(w)))
    ctx.sample(witness(root, cfg))


def all_types(root):
    out = []
    M.walk(root, lambda x, d: out.append(x))
    return out


def w_assign(ctx, i):
    """Assigning one bit-field changes its own bits of the dump and no others; a value that does not fit never touches others."""
    rng = ctx.rng
    g = gen.Gen(rng, gen.Profile(bits=0.0), None)
    n = rng.randint(1, 3)
    fs, ints = [], []
    for _ in range(n):
        g.bit_run(fs, ints)
        if rng.random() < 0.4:
            fs.append(M.Fd(g.name("f"), M.SC[rng.choice(("uint8", "uint16", "char", "int32"))]))
    root = M.St("S0", fs, False, rng.random() < 0.5)
    cfg = g.cfg
    try:
        M.layout(root, cfg)
    except M.OutOfDomain:
        return
    loaded = load(ctx, root, cfg)
    if loaded is None:
        return
    d = gen.gen_data(rng, root, cfg)
    if d is None:
        return
    data, v, e, q = d
    for comp, (cs, T) in loaded.items():
        o = call(T, data)
        if isinstance(o, Err):
            ctx.fail("parse-failed", witness(root, cfg, comp, data, raised=repr(o)))
            continue
        cur = dict(v)
        for _ in range(8):
            f = rng.choice([f for f in fs if f.bits])
            F = T.fields[f.name]
            hi = 1 << f.bits
            x = rng.choice((0, hi - 1, hi >> 1, 1 % hi, rng.randrange(hi)))
            if rng.random() < 0.2:
                bad = rng.choice((hi, hi + 1, -1, 2 * hi - 1, -hi, 1 << 130))
                save = getattr(o, f.name)
                r = call(lambda: setattr(o, f.name, F.type(bad) if isinstance(f.t, M.En) else bad))
                w = call(o.dumps)
                ctx.ev("overflow_probes")
                if not isinstance(w, Err) and not isinstance(r, Err):
                    back, _, _ = M.parse(root, w, cfg)
                    others = {k: y for k, y in back.items() if k != f.name}
                    ctx.check(others == {k: y for k, y in cur.items() if k != f.name}, "overflow-corrupts-neighbour", lambda: witness(
                        root, cfg, comp, data, field=f.name, value=str(bad), before=repr(cur), after=repr(back)))
                setattr(o, f.name, save)
                continue
            setattr(o, f.name, F.type(x) if isinstance(f.t, M.En) else x)
            cur[f.name] = x
            enc, _ = M.encode(root, cur, cfg)
            w = call(o.dumps)
            ctx.ev("units_written")
            ctx.check(w == enc, "assign-dump", lambda: witness(root, cfg, comp, data, field=f.name, value=x, expected=enc.hex(), got=repr(w)))
            b = call(T, w) if not isinstance(w, Err) else w
            ctx.check(not isinstance(b, Err) and canon(root, b) == cur, "assign-reparse", lambda: witness(
                root, cfg, comp, data, field=f.name, value=x, expected=repr(cur), got=repr(b)))
        ctx.key("assign", M.program_text(root), cfg.endian, data, comp)


def w_union(ctx, i):
    """Bit-fields inside unions: directly, in a structure, in an anonymous structure."""
    rng = ctx.rng
    b = rng.choice(("uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "uint24", "uint48", "uint128"))
    t = M.SC[b]
    nb = t.size * 8
    ws = COMP16[rng.randrange(len(COMP16))] if nb == 16 else None
    if ws is None:
        ws, left = [], nb
        while left and len(ws) < 9:
            ws.append(min(left, rng.randint(1, max(1, nb // 3))))
            left -= ws[-1]
    anon = rng.random() < 0.5
    inner = M.St(None, [M.Fd(f"b{k}", t, w) for k, w in enumerate(ws)], False, False, False)
    u = M.SC["u" + b.lstrip("u")]
    fs = [M.Fd("whole", u), M.Fd(None if anon else "bits", inner)]
    if rng.random() < 0.5:
        fs.append(M.Fd("one", t, rng.randint(1, nb)))
    rng.shuffle(fs)
    root = M.St("U", fs, True, False)
    cfg = M.Cfg(rng.choice(ENDS))
    loaded = load(ctx, root, cfg)
    if loaded is None:
        return
    for _ in range(4):
        c = rng.choice((0, (1 << nb) - 1, 1 << (nb - 1), 1, rng.getrandbits(nb), rng.getrandbits(nb)))
        data = M.enc_int(c, t.size, cfg.order, False)
        v, e, p = M.parse(root, data, cfg)
        for comp, (cs, T) in loaded.items():
            det = lambda **kw: witness(root, cfg, comp, data, **kw)  # noqa: E731
            o = call(T, data)
            ctx.ev("union_units")
            got = canon(root, o) if not isinstance(o, Err) else o
            if not ctx.check(got == v, "union-value", lambda: det(expected=repr(v), got=repr(got))):
                continue
            ctx.check(call(o.dumps) == data, "union-dump", lambda: det(got=repr(call(o.dumps))))
            # assign one bit-field through the union, the unit changes in exactly those bits
            k = rng.randrange(len(ws))
            sh, w = slices(ws, nb, "<" if cfg.order == "little" else ">")[k]
            x = rng.getrandbits(w)
            r = call(lambda: setattr(o if anon else o.bits, f"b{k}", x))
            want = (c & ~(((1 << w) - 1) << sh)) | (x << sh)
            if sum(ws) < nb:
                # bits of the unit that no field owns may be kept or cleared
                own = sum(((1 << w2) - 1) << s2 for s2, w2 in slices(ws, nb, "<" if cfg.order == "little" else ">"))
                ok = not isinstance(r, Err) and o.whole & own == want & own
            else:
                ok = not isinstance(r, Err) and o.whole == want
            ctx.check(ok, "union-bit-assignment", lambda: det(field=f"b{k}", value=x, expected=want, got=repr(o)))
    ctx.key("union", M.program_text(root), cfg.endian)


def w_incremental(ctx, i):
    """Bit-fields added one by one, and in one update, through add_field."""
    rng = ctx.rng
    g = gen.Gen(rng, gen.Profile(bits=0.0, enum=0.0), None)
    fs, ints = [], []
    for _ in range(rng.randint(1, 4)):
        k = rng.random()
        if k < 0.75:
            t = M.SC[g.int_name()]
            left = g.open_left(fs, t)
            for _ in range(rng.randint(1, 4)):
                if left <= 0:
                    break
                w = rng.randint(1, left)
                fs.append(M.Fd(g.name("f"), t, w))
                left -= w
        else:
            fs.append(M.Fd(g.name("f"), M.SC[g.int_name()]))
    align = rng.random() < 0.5
    root = M.St("S0", fs, False, align)
    cfg = g.cfg
    try:
        M.layout(root, cfg)
    except M.OutOfDomain:
        return
    d = gen.gen_data(rng, root, cfg)
    if d is None:
        return
    data, v, e, q = d
    for comp in MODES:
        for how in ("each", "together"):
            cs = lib.new_cs(cfg)
            cs.load("struct S0 { };", compiled=comp, align=align)
            S = cs.S0
            if how == "each":
                for f in fs:
                    S.add_field(f.name, cs.resolve(f.t.name), bits=f.bits)
            else:
                with S.start_update():
                    for f in fs:
                        S.add_field(f.name, cs.resolve(f.t.name), bits=f.bits)
            o = call(S, data)
            ctx.ev("incremental")
            det = lambda **kw: witness(root, cfg, comp, data, how=how, **kw)  # noqa: E731
            got = canon(root, o) if not isinstance(o, Err) else o
            ctx.check(got == v, "incremental-value", lambda: det(expected=repr(v), got=repr(got)))
            if not isinstance(o, Err):
                mask = bytes(q.mask[:e]) + bytes(max(0, e - len(q.mask)))
                w = call(o.dumps)
                ctx.check(w == masked(data, e, mask), "incremental-dump", lambda: det(got=repr(w)))
    # one more field that straddles is refused and does not have to leave the structure usable
    last = fs[-1] if fs and fs[-1].bits else None
    if last is not None:
        left = g.open_left(fs, last.t)
        nb = last.t.size * 8
        w = left + 1 if left < nb else nb + 1
        cs = lib.new_cs(cfg)
        cs.load("struct S0 { };", align=align)
        with cs.S0.start_update():
            for f in fs:
                cs.S0.add_field(f.name, cs.resolve(f.t.name), bits=f.bits)
        r = call(cs.S0.add_field, "straddle", cs.resolve(last.t.name), bits=w)
        ctx.ev("straddles_refused")
        ctx.check(isinstance(r, Err), "straddle-accepted", lambda: witness(root, cfg, width=w, left=left))
    ctx.key("incremental", M.program_text(root), cfg.endian, align)


def w_buffer(ctx, i):
    """The bit buffer by itself: sequences of writes, flushes, reads and resets against a list of units."""
    from dissect.cstruct.bitbuffer import BitBuffer

    rng = ctx.rng
    e = rng.choice(ENDS)
    cs = cstruct(endian=e)
    names = rng.sample(("uint8", "int8", "uint16", "int16", "uint24", "int24", "uint32", "int32", "uint48", "uint64", "int64", "uint128",
                        "char"), rng.randint(1, 3))
    units, plan = [], []          # units: [type, contents]; plan: the reads which have to give the written values back
    cur, left = None, 0
    out = BytesIO()
    wb = BitBuffer(out, e)
    for _ in range(rng.choice((4, 12, 60))):
        k = rng.random()
        if k < 0.15:
            wb.flush()
            plan.append(("reset",))
            cur, left = None, 0
            continue
        n = rng.choice(names)
        nb = M.SC[n].size * 8
        avail = left if cur == n and left else nb
        w = rng.choice((avail, rng.randint(1, avail), rng.randint(1, avail), 1))
        x = rng.choice((0, (1 << w) - 1, rng.getrandbits(w), 1 << (w - 1)))
        if cur != n or left == 0:
            units.append([n, 0])
            cur, left = n, nb
        sh = nb - left if order(e) == "little" else left - w
        units[-1][1] |= x << sh
        left -= w
        r = call(wb.write, cs.resolve(n), x, w)
        plan.append(("field", n, w, x, left))
        ctx.check(not isinstance(r, Err), "buffer-write", lambda: {"endian": e, "plan": plan, "raised": repr(r)})
    wb.flush()
    img = b"".join(M.enc_int(c, M.SC[n].size, order(e), False) for n, c in units)
    ctx.ev("buffer_units", len(units))
    ctx.check(out.getvalue() == img, "buffer-image", lambda: {"endian": e, "plan": plan, "expected": img.hex(), "got": out.getvalue().hex()})
    stream = BytesIO(img)
    rb = BitBuffer(stream, e)
    for p in plan:
        if p[0] == "reset":
            rb.reset()
            continue
        _, n, w, x, left = p
        r = call(rb.read, cs.resolve(n), w)
        if not ctx.check(r == x and type(r) is int, "buffer-read", lambda: {"endian": e, "plan": plan, "at": p, "got": repr(r)}):
            return
        if left and rng.random() < 0.25:
            # more than what is left of the unit: refused, nothing consumed, what is left is still there
            pos = stream.tell()
            r = call(rb.read, cs.resolve(n), rng.choice((left + 1, M.SC[n].size * 8, left + 7, 200)))
            ctx.ev("straddled_reads")
            ctx.check(isinstance(r, Err) or left == M.SC[n].size * 8, "straddled-read-accepted", lambda: {
                "endian": e, "plan": plan, "at": p, "left": left, "got": repr(r)})
            if stream.tell() != pos:
                return
    ctx.check(stream.tell() == len(img), "buffer-consumed", lambda: {"endian": e, "plan": plan, "tell": stream.tell(), "len": len(img)})
    ctx.key("buffer", e, tuple(plan))


WORKLOADS = {
    "buffer": (w_buffer, 1500, 40000),
    "comp8": (w_comp8, lambda: 8 * len(full8()), lambda: 8 * len(full8())),
    "comp16": (w_comp16, 40, 256),
    "straddle": (w_straddle, 200, 1200),
    "isolated": (w_isolated, 2 * len(ISO), 12 * len(ISO)),
    "mixed": (w_mixed, 2400, 40000),
    "assign": (w_assign, 900, 15000),
    "union": (w_union, 400, 6000),
    "incremental": (w_incremental, 300, 5000),
}
EXHAUSTIVE = ("workload comp8: all 128 width compositions of an 8-bit unit x 8 kinds of storage type x both byte orders x all 256 contents; "
              "workload straddle: all width sequences up to length 3 over an 8-bit unit; thorough: every position and width of "
              "every integer storage type, all 32768 compositions of a 16-bit unit")
