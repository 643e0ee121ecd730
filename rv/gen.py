"""Random definitions and inputs."""
from __future__ import annotations

import random

from .model import (SC, ALIASES, FLOATFMT, Ar, Cfg, En, Ex, Fd, OutOfDomain, Parser, Pt, Sc, Short, St, alignof, auto_members, nullable,
                    enc_int, enc_leb, enc_wstr, float_is_nan, layout, sizeof, storage)

INTS = [f"{s}int{b}" for b in (8, 16, 24, 32, 48, 64, 128) for s in ("", "u")]
STD_INTS = [f"{s}int{b}" for b in (8, 16, 32, 64) for s in ("", "u")]
ODD_INTS = [f"{s}int{b}" for b in (24, 48, 128) for s in ("", "u")]
FLOATS = ["float16", "float", "double"]
PTRS = ["uint8", "uint16", "uint24", "uint32", "uint48", "uint64"]


def edge_int(rng, size, signed=False):
    """An integer likely to be near a boundary, as an unsigned bit pattern of the given width."""
    nb = size * 8
    k = rng.randrange(9)
    if k == 0:
        return 0
    if k == 1:
        return (1 << nb) - 1
    if k == 2:
        return 1 << (nb - 1)
    if k == 3:
        return (1 << (nb - 1)) - 1
    if k == 4:
        return rng.randrange(min(4, 1 << nb))
    if k == 5:
        return 1 << rng.randrange(nb)
    return rng.getrandbits(nb)


class Src:
    """Draws canonical bytes for the reference parser in generate mode."""

    def __init__(self, rng, cfg, padmode=None):
        self.rng = rng
        self.cfg = cfg
        self.padmode = padmode if padmode is not None else rng.choice(("rand", "rand", "ff", "zero"))
        self.run = 0                # how many zeros are still to come in a row

    def pick(self, xs):
        return self.rng.choice(xs)

    def nullcount(self):
        if self.cfg.big:
            return self.cfg.big
        return self.rng.choice((0, 1, 1, 2, 3, 5))

    def padding(self, n):
        if self.padmode == "zero":
            return bytes(n)
        if self.padmode == "ff":
            return b"\xff" * n
        return self.rng.randbytes(n)

    def scalar(self, t, cfg, hint=None):
        rng = self.rng
        h = hint[0] if hint else None
        if t.kind == "leb":
            if h == "zero":
                return b"\x00"
            while True:
                n = rng.choice((1, 1, 2, 3, 5, 9, 10, 18)) * 7 - rng.randrange(7)
                v = rng.getrandbits(n) if rng.random() < 0.7 else rng.choice(((1 << n) - 1, 1 << (n - 1), (1 << n) >> 2))
                if t.signed and rng.random() < 0.5:
                    v = -v - rng.randrange(2)
                if rng.random() < 0.15:
                    v = 0
                if h == "nonzero" and v == 0:
                    continue
                if h == "small":
                    v = rng.randrange(4)
                return enc_leb(v, t.signed)
        if h == "zero":
            return bytes(t.size)
        if t.kind == "chars":
            k = rng.random()
            if k < 0.4:
                return rng.randbytes(t.size)
            if k < 0.75:
                return bytes(rng.choice(b"ab\x00\xff\x80 \x7f") for _ in range(t.size))
            # text in a buffer: filled up, cut off, preceded or interrupted by one byte value
            fill = rng.choice((b"\x00", b"\x00", b" ", b"\xff", b"\n"))
            text = bytes(rng.choice(b"abcdef") for _ in range(rng.randrange(t.size + 1)))
            at = rng.choice((0, 0, rng.randrange(t.size - len(text) + 1)))
            return (fill * at + text).ljust(t.size, fill)
        if h is None:
            if self.run:
                self.run -= 1
                return bytes(t.size)
            if rng.random() < 0.02:
                self.run = rng.choice((2, 5, 20))
        if t.kind == "char":
            while True:
                b = bytes([rng.choice((0, 1, 0x41, 0x7F, 0x80, 0xFF, rng.randrange(256)))])
                if h == "nonzero" and b == b"\x00":
                    continue
                return b
        if t.kind == "wchar":
            while True:
                c = rng.choice((0, 0x41, 0xFF, 0x100, 0x4100, 0xFEFF, 0xFFFE, 0xFFFF, rng.randrange(0x10000)))
                if 0xD800 <= c < 0xE000 or (h == "nonzero" and c == 0):
                    continue
                return enc_wstr(chr(c), cfg.order)
        if t.kind == "float":
            while True:
                v = edge_int(rng, t.size)
                b = enc_int(v, t.size, cfg.order, False)
                if not float_is_nan(b, cfg.order):
                    return b
        # integers
        if h == "value":
            return enc_int(hint[1], t.size, cfg.order, False)
        if h == "enum" and rng.random() < 0.6:
            e = hint[1]
            if e.members:
                v = rng.choice(e.members)[1]
                if rng.random() < 0.3:
                    v += rng.choice((-1, 1))
                return enc_int(v & ((1 << t.size * 8) - 1), t.size, cfg.order, False)
        if h == "small":
            return enc_int(rng.randrange(6), t.size, cfg.order, False)
        while True:
            v = edge_int(rng, t.size)
            if h == "nonzero" and v == 0:
                continue
            return enc_int(v, t.size, cfg.order, False)


class Profile:
    """What a generated definition may contain."""

    def __init__(self, **kw):
        self.align = None           # None: random per program
        self.mixed_align = 0.08     # probability that a nested named struct uses the other mode
        self.fields = (1, 7)
        self.depth = 2
        self.union = 0.12
        self.dynunion = 0.0     # unions with members of data-dependent size (packed only, can't be written)
        self.nested = 0.18
        self.anon = 0.35            # of nested: anonymous (folded)
        self.inline = 0.5           # of nested: inline rather than named
        self.bits = 0.25
        self.array = 0.28
        self.dyn = 0.3              # of arrays: dynamic form
        self.nullterm = True
        self.exprs = True
        self.eof = 0.05
        self.ptr = 0.08
        self.enum = 0.12
        self.floats = True
        self.wchar = True
        self.leb = 0.05
        self.void = 0.01
        self.odd = True
        self.multidim = 0.2
        self.charbits = True
        self.root = "struct"
        self.alias = 0.0
        self.zero_len = True
        self.neg_len = True
        self.signed_flag = True
        self.leb_enum = 0.03
        self.__dict__.update(kw)


class Gen:
    def __init__(self, rng, prof, cfg=None):
        self.rng = rng
        self.p = prof
        self.cfg = cfg or Cfg(rng.choice("<<<>>>!!=@"), SC[rng.choice(PTRS + ["uint64", "uint32"])])
        self.n = 0
        self.align = prof.align if prof.align is not None else rng.random() < 0.5
        self.enums = []
        self.structs = []

    def name(self, p):
        self.n += 1
        return f"{p}{self.n}"

    def chance(self, x):
        return self.rng.random() < x

    # -- scalars
    def int_name(self):
        r = self.rng
        if self.p.odd and r.random() < 0.25:
            return r.choice(ODD_INTS)
        return r.choice(STD_INTS)

    def scalar(self):
        r = self.rng
        p = self.p
        x = r.random()
        if x < 0.62:
            return SC[self.int_name()]
        if x < 0.72:
            return SC[r.choice(FLOATS)] if p.floats else SC["uint8"]
        if x < 0.85:
            return SC["char"]
        if x < 0.92:
            return SC["wchar"] if p.wchar else SC["uint16"]
        return SC["uint8"]

    def enum(self, fixed=True):
        r = self.rng
        if self.enums and r.random() < 0.4:
            c = [e for e in self.enums if not fixed or e.base.size is not None]
            if c:
                return r.choice(c)
        base = SC[self.int_name()]
        if not fixed and r.random() < self.p.leb_enum:
            base = SC[r.choice(("uleb128", "ileb128"))]
        flag = r.random() < 0.4
        if flag and not self.p.signed_flag and base.signed:
            base = SC["u" + base.name] if base.name != "ileb128" else SC["uleb128"]
        nb = (base.size or 4) * 8
        lo = -(1 << (nb - 1)) if base.signed and not flag else 0
        hi = (1 << (nb - 1)) - 1 if base.signed else (1 << nb) - 1
        raw = []
        n = r.randrange(1, 6)
        e_name = self.name("E")
        for i in range(n):
            nm = f"{e_name}_M{i}"
            v = None
            if r.random() < 0.5:
                v = r.choice((r.randrange(0, min(hi, 20) + 1), r.randint(lo, hi), hi, max(lo, -1), 0, 1))
                if flag and v < 0:
                    v = 1
            raw.append((nm, v))
        members = []
        good = []
        for nm, v in raw:
            good.append((nm, v))
            m = auto_members(good, flag)
            if not lo <= m[-1][1] <= hi:
                good[-1] = (nm, 1 if i % 2 else 0)
                m = auto_members(good, flag)
            members = m
        e = En(e_name, base, flag, members, [(n_, None if v is None else str(v)) for n_, v in good])
        self.enums.append(e)
        return e

    def fixed_elem(self, depth):
        """A fixed-size type usable as a field/element."""
        r = self.rng
        x = r.random()
        p = self.p
        if x < p.enum:
            return self.enum()
        if x < p.enum + p.ptr:
            return self.pointer()
        if depth > 0 and x < p.enum + p.ptr + p.nested:
            return self.struct(depth - 1, fixed=True, allow_anon=False)
        return self.scalar()

    def pointer(self):
        r = self.rng
        t = r.choice((SC["uint8"], SC["uint32"], SC["char"], SC["void"], SC["int16"]))
        if self.structs and r.random() < 0.3:
            t = r.choice(self.structs)
        t = Pt(t)
        if r.random() < 0.15:
            t = Pt(t)
        return t

    def int_struct(self):
        """Flat structure of integers and characters, usable as an element of a null-terminated array."""
        r = self.rng
        fs = []
        for _ in range(r.randrange(1, 4)):
            x = r.random()
            t = SC["char"] if x < 0.15 else SC["wchar"] if x < 0.2 and self.p.wchar else SC[
                r.choice(STD_INTS + ODD_INTS if self.p.odd else STD_INTS)]
            if self.chance(0.2):
                t = Ar(t, "n", r.randrange(0, 4))
            fs.append(Fd(self.name("f"), t))
        if all(isinstance(f.t, Ar) for f in fs):
            fs.append(Fd(self.name("f"), SC["uint8"]))
        st = St(self.name("S"), fs, False, self.align, True)
        self.structs.append(st)
        return st

    def null_elem(self, depth=9):
        r = self.rng
        if self.chance(0.25):
            for _ in range(3):
                el = self.fixed_elem(depth)
                if not isinstance(el, Ar) and nullable(el) and not (isinstance(el, Sc) and el.kind == "void"):
                    return el
        x = r.random()
        if x < 0.4:
            return SC[self.int_name()]
        if x < 0.6:
            return SC["char"]
        if x < 0.7:
            return SC["wchar"] if self.p.wchar else SC["uint16"]
        if x < 0.82:
            return self.enum(fixed=False)
        if x < 0.9:
            return SC[r.choice(("uleb128", "ileb128"))] if self.p.leb else SC["uint16"]
        return self.int_struct()

    def length_expr(self, ints):
        """Expression over earlier integer members (name, bits) and constants, with small values."""
        r = self.rng
        names = [n for n, _ in ints]
        c = sorted(self.cfg.consts)
        k = r.randrange(8)
        a = r.choice(names) if names else None
        if a is None:
            if not c:
                return None
            a = r.choice(c)
        v = r.randrange(1, 5)
        if k == 0:
            return Ex(f"{a} & 3", lambda x, a=a: x[a] & 3, (a,))
        if k == 1:
            return Ex(f"({a} & 7) - {v}", lambda x, a=a, v=v: (x[a] & 7) - v, (a,))
        if k == 2 and names and len(names) > 1:
            b = r.choice(names)
            return Ex(f"({a} & 1) + ({b} & 3) * {v}", lambda x, a=a, b=b, v=v: (x[a] & 1) + (x[b] & 3) * v, (a, b))
        if c and (k == 3 or self.chance(0.2)):
            d = r.choice(c)
            return Ex(f"({a} & 1) + {d}", lambda x, a=a, d=d: (x[a] & 1) + x[d], (a, d))
        if k == 4:
            return Ex(f"({a} >> 2) & 3", lambda x, a=a: (x[a] >> 2) & 3, (a,))
        if k == 5:
            return Ex(f"2 - ({a} & 3)", lambda x, a=a: 2 - (x[a] & 3), (a,))
        if k == 6:
            return Ex(f"-({a} & 1) + {v}", lambda x, a=a, v=v: -(x[a] & 1) + v, (a,))
        return Ex(f"({a} & 6) / 2", lambda x, a=a: (x[a] & 6) // 2, (a,))

    def array(self, depth, ints, fixed):
        r = self.rng
        p = self.p
        dynok = not fixed
        lens = [1, 2, 3, 4, 5]
        if p.zero_len:
            lens.append(0)
        cnt = r.choice(lens)
        if dynok and self.chance(p.dyn):
            k = r.random()
            if k < 0.5 and p.exprs:
                ex = self.length_expr(ints)
                if ex is not None:
                    el = self.fixed_elem(depth)
                    if self.chance(0.12):
                        el = SC[r.choice(("uleb128", "ileb128"))] if p.leb else el
                    if all(d in self.cfg.consts for d in ex.deps):
                        # only constants: a fixed size array, settled when the definition is loaded
                        t = Ar(el, "n", ex.fn(self.cfg.consts), ex.text)
                    else:
                        t = Ar(el, "e", ex)
                    if self.chance(p.multidim * 0.4) and not isinstance(el, Pt):
                        t = Ar(t, "n", r.randrange(1, 3))
                    return t
            if p.nullterm:
                el = self.null_elem(depth)
                t = Ar(el, "0")
                if self.chance(p.multidim * 0.4):
                    t = Ar(t, "n", r.randrange(0, 3))
                return t
        t = Ar(self.fixed_elem(depth), "n", cnt)
        if p.neg_len and self.chance(0.02):
            t.count = -r.randrange(1, 3)
            t.text = f"{t.count}"
        if self.chance(p.multidim):
            t = Ar(t, "n", r.randrange(1, 4))
            if self.chance(0.2):
                t = Ar(t, "n", r.randrange(1, 3))
        return t

    def bit_run(self, fs, ints):
        r = self.rng
        k = r.random()
        if k < 0.2:
            t = self.enum()
        elif k < 0.27 and self.p.charbits:
            t = SC["char"]
        else:
            t = SC[self.int_name()]
        left = self.open_left(fs, t)
        nb = storage(t).size * 8
        for _ in range(r.randrange(1, 6)):
            if left == 0:
                if not self.chance(0.4):
                    break
                left = nb
            b = left if self.chance(0.25) else r.randint(1, max(1, min(left, r.choice((1, 3, 8, 17, nb)))))
            tt = t
            # same storage through another name of the same underlying type
            if isinstance(t, En) and self.chance(0.4):
                tt = t.base
            elif isinstance(t, Sc) and t.kind == "int" and self.chance(0.15):
                c = [e for e in self.enums if e.base is t]
                if c:
                    tt = r.choice(c)
            nm = self.name("f")
            fs.append(Fd(nm, tt, b))
            ints.append((nm, b))
            left -= b

    def open_left(self, fs, t):
        """Bits left in the unit the next bit-field of this type would continue."""
        s = storage(t)
        unit, left = None, 0
        for f in fs:
            if not f.bits:
                unit, left = None, 0
                continue
            x = storage(f.t)
            if unit is not x or left == 0:
                unit, left = x, x.size * 8
            left -= f.bits
        if unit is s and left:
            return left
        return s.size * 8

    def struct(self, depth, fixed=False, allow_anon=True, top=None, union=None, root=False):
        r = self.rng
        p = self.p
        is_union = self.chance(p.union) if union is None else union
        dyn_union = bool(p.dynunion) and is_union and not fixed and not root and self.chance(p.dynunion)
        nm = self.name("S")
        inline = self.chance(p.inline) if top is None else not top
        st = St(nm, [], is_union, self.align, not inline)
        if inline and self.chance(0.7):
            st.name = None
        if not inline and not root and self.chance(p.mixed_align):
            st.align = not self.align
        save = self.align
        self.align = st.align
        n = r.randint(*p.fields) if not is_union else r.randint(1, 4)
        fs = st.fields
        ints = []
        guard = 0
        while len(fs) < n and guard < 50:
            guard += 1
            x = r.random()
            f_fixed = fixed or is_union and not dyn_union
            if not is_union and x < p.bits:
                self.bit_run(fs, ints)
                continue
            if is_union and x < p.bits * 0.35:
                t = self.enum() if self.chance(0.25) else SC[self.int_name()]
                fs.append(Fd(self.name("f"), t, r.randint(1, storage(t).size * 8)))
                continue
            if depth > 0 and r.random() < p.nested:
                sub = self.struct(depth - 1, fixed=f_fixed, allow_anon=True)
                if not sub.top and sub.name is None and self.chance(p.anon) and allow_anon:
                    fs.append(Fd(None, sub))
                else:
                    fs.append(Fd(self.name("f"), sub))
                continue
            if self.chance(p.array):
                fs.append(Fd(self.name("f"), self.array(depth, ints, f_fixed)))
                continue
            if not f_fixed and self.chance(p.leb):
                nm_ = self.name("f")
                fs.append(Fd(nm_, SC[r.choice(("uleb128", "ileb128"))]))
                ints.append((nm_, None))
                continue
            if self.chance(p.void):
                fs.append(Fd(self.name("f"), SC["void"]))
                continue
            if self.chance(p.enum):
                nm_ = self.name("f")
                e = self.enum(fixed=f_fixed)
                fs.append(Fd(nm_, e))
                ints.append((nm_, None))
                continue
            if self.chance(p.ptr):
                fs.append(Fd(self.name("f"), self.pointer()))
                continue
            t = self.scalar()
            nm_ = self.name("f")
            fs.append(Fd(nm_, t))
            if t.kind == "int":
                ints.append((nm_, None))
        self.align = save
        if root and not is_union and not fixed and self.chance(p.eof):
            el = self.fixed_elem(0)
            fs.append(Fd(self.name("f"), Ar(el, "eof")))
        if st.top and self.cfg.consts and self.chance(0.3):
            self.shadow(fs)
        if st.top and not root:
            self.structs.append(st)
        try:
            layout(st, self.cfg)
        except OutOfDomain:
            st.fields = [f for f in fs if not f.bits] or [Fd(self.name("f"), SC["uint8"])]
        return st

    def shadow(self, fs):
        """Give a member the name of a constant that this structure's own lengths do not use (nested structures may)."""
        used = set()
        for f in fs:
            t = f.t
            while isinstance(t, Ar):
                if t.form == "e":
                    used.update(t.count.deps)
                if isinstance(t.text, str):
                    used.update(k for k in self.cfg.consts if k in t.text)
                t = t.elem
        free = sorted(set(self.cfg.consts) - used)
        some = [f for f in fs if f.name and f.name not in used and isinstance(f.t, (Sc, En)) and getattr(f.t, "kind", "") != "void"]
        if free and some and all(f.name for f in fs) and not used & {f.name for f in some}:
            self.rng.choice(some).name = self.rng.choice(free)

    def program(self, **kw):
        """A root structure."""
        return self.struct(self.p.depth, top=True, root=True, **kw)


LENGTHS = (63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4095, 4096, 4097,
           5000, 8191, 8192, 8193, 10000, 16384, 20000, 32767, 32768, 65535, 65536, 65537, 70000)


def big_program(rng, dynamic=True, limit=70000, shape=None, align=None):
    """(root, cfg) with one big dimension: long arrays, long strings, many fields, deep nesting, large unions."""
    g = Gen(rng, Profile(align=align, nested=0.0, array=0.0, dyn=0.0, eof=0.0, union=0.0, depth=0), None)
    cfg = g.cfg
    cfg.consts = {}
    align = g.align if align is None else align
    F = Fd
    shapes = ["array", "array", "rows", "fields", "bits", "deep", "records", "union", "chars", "table"]
    if dynamic:
        shapes += ["length", "length", "null", "eof", "ends", "strings"]
    k = shape or rng.choice(shapes)
    n = rng.choice(LENGTHS) if rng.random() < 0.35 else rng.choice(LENGTHS[:15])
    names = ("uint8", "int8", "char", "uint16", "int16", "wchar", "uint24", "int24", "uint32", "int32", "float", "double", "uint48",
             "int64", "uint64", "uint128", "float16")
    fs = [F("h0", SC["uint8"])]
    if k in ("array", "length", "eof", "chars", "null"):
        x = rng.random()
        el = SC[rng.choice(("char", "wchar", "char"))] if k == "chars" or k == "null" and x < 0.5 else (
            g.enum() if x < 0.15 else Pt(SC["uint8"]) if x < 0.22 else SC[rng.choice(names)] if x < 0.9 or not dynamic or k == "eof" else
            SC[rng.choice(("uleb128", "ileb128"))])
        if k == "null":
            el = el if nullable(el) or (isinstance(el, Sc) and el.kind in ("char", "wchar")) else SC["uint16"]
            if isinstance(el, Sc) and el.kind == "float":
                el = SC["int32"]
        n = min(n, limit // max(1, sizeof(el, cfg) or 4))
        if k == "length":
            fs.append(F("biglen", SC[rng.choice(("uint32", "uint24", "int64", "uint128"))]))
            ex = rng.choice((Ex("biglen", lambda x: x["biglen"], ("biglen",)), Ex("biglen - 1", lambda x: x["biglen"] - 1, ("biglen",)),
                             Ex("biglen + (h0 & 1)", lambda x: x["biglen"] + (x["h0"] & 1), ("biglen", "h0"))))
            fs.append(F("x", Ar(el, "e", ex)))
        elif k in ("null", "eof"):
            fs.append(F("x", Ar(el, "0" if k == "null" else "eof")))
        else:
            fs.append(F("x", Ar(el, "n", n)))
    elif k == "strings":
        n = min(n, 5000)
        fs += [F("x", Ar(SC["char"], "0")), F("y", Ar(SC["wchar"], "0")), F("z", Ar(SC["uint16"], "0"))]
    elif k == "rows":
        el = SC[rng.choice(names)]
        a = rng.choice((2, 3, 70, 257))
        b = rng.choice((2, 3, 5, 300))
        if a * b > 3000:
            b = 3
        fs.append(F("x", Ar(Ar(el, "n", a), "n", b)))
    elif k == "fields":
        for j in range(rng.choice((60, 127, 128, 129, 255, 256, 257, 300, 520))):
            x = rng.random()
            t = SC[rng.choice(names)]
            if x < 0.1:
                t = Ar(SC[rng.choice(names)], "n", rng.randrange(0, 4))
            elif x < 0.14:
                t = Pt(SC["uint8"])
            fs.append(F(f"f{j}", t))
    elif k == "bits":
        for j in range(rng.choice((20, 60, 130, 260))):
            if rng.random() < 0.08:
                fs.append(F(f"f{j}", SC[rng.choice(names)]))
                continue
            prev = fs[-1]
            t = prev.t if prev.bits and rng.random() < 0.85 else SC[rng.choice(("uint8", "int16", "uint32", "uint64", "int64", "uint128", "uint24"))]
            left = g.open_left(fs, t)
            if left <= 0:
                left = t.size * 8
            fs.append(F(f"f{j}", t, rng.randint(1, min(left, rng.choice((3, 8, 64))))))
    elif k == "deep":
        el = St("D0", [F("v", SC[rng.choice(names)]), F("w", SC["uint8"])], False, align)
        for j in range(1, rng.choice((8, 12, 20, 30))):
            fs2 = [F("p", SC[rng.choice(("uint8", "uint16", "uint32"))]), F("n", el), F("q", SC["uint8"])]
            el = St(f"D{j}", fs2, False, align)
        fs.append(F("x", el))
    elif k in ("records", "table", "ends"):
        rf = [F("a", SC[rng.choice(names)]), F("b", SC["uint8"])]
        if rng.random() < 0.5:
            rf += [F("c", SC["uint16"], 5), F("d", SC["uint16"], 11)]
        if k == "ends":
            rf += [F("l", SC["uint8"], 2), F("m", SC["uint8"], 6), F("s", Ar(SC["char"], "e", Ex("l", lambda x: x["l"], ("l",))))]
        if k == "table":
            rf.append(F("t", Ar(SC[rng.choice(names)], "n", rng.randrange(1, 20))))
        el = St("REC", rf, False, align)
        fs.append(F("x", Ar(el, "n", min(n, 1025))))
    else:
        n = min(n, 4097)
        fs.append(F("x", St("UN", [F("a", Ar(SC[rng.choice(("uint8", "char"))], "n", n)), F("b", SC["uint32"]), F(
            "c", Ar(SC["uint16"], "n", n // 2))], True, align)))
    cfg.big = n
    if k != "eof":
        fs += [F("t0", SC["uint32"]), F("t1", SC["uint8"])]
    root = St("BIG", fs, False, align)
    layout(root, cfg)
    return root, cfg


def gen_data(rng, t, cfg, tries=6):
    """Canonical input for t: (data, value, end, parser) or None."""
    for _ in range(tries):
        src = Src(rng, cfg)
        p = Parser(cfg, b"", src)
        try:
            p.parse(t, 0)
        except (OutOfDomain, Short):
            continue
        data = bytes(p.data)
        q = Parser(cfg, data)
        try:
            v, e = q.parse(t, 0)
        except (OutOfDomain, Short):
            continue
        if q.noncanon:
            continue
        return data, v, e, q
    return None
