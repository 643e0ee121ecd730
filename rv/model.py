"""Independent reference model of the definition language.

Definitions are small ASTs (Sc, En, Pt, Ar, St).  The model computes layout, parses bytes, says which bits carry data
and encodes values, from the property texts and the documented language only.  It never calls the code under test.

Values are canonical Python data: int, ("f", bits) floats, bytes (char), str (wchar), None (void), list (array),
dict name -> value (struct/union, folded anonymous members under their own names).
"""
from __future__ import annotations

import struct
import sys


class Short(Exception):
    """The input ended inside the value."""


class NonCanon(Exception):
    """The input is outside the canonical-encoding domain (NaN, non-minimal LEB128, lone surrogate)."""


class OutOfDomain(Exception):
    """The definition or input is outside the claimed domain."""


# ---------------------------------------------------------------------------------------------------- types


class T:
    __slots__ = ()


class Sc(T):
    """Scalar type."""

    __slots__ = ("name", "kind", "size", "signed", "align")

    def __init__(self, name, kind, size, signed=False, align=None):
        self.name, self.kind, self.size, self.signed = name, kind, size, signed
        self.align = align or size or 1

    def __repr__(self):
        return self.name


class En(T):
    __slots__ = ("name", "base", "flag", "members", "base_text", "raw")

    def __init__(self, name, base, flag, members, raw=None, base_text=None):
        self.name, self.base, self.flag, self.members = name, base, flag, members
        self.raw = raw  # list of (name, text or None) as written
        self.base_text = base_text

    def __repr__(self):
        return f"{'flag' if self.flag else 'enum'} {self.name}:{self.base}"


class Pt(T):
    __slots__ = ("target",)

    def __init__(self, target):
        self.target = target

    def __repr__(self):
        return f"{self.target!r}*"


class Ar(T):
    """form: 'n' (count int), 'e' (count Ex), '0' (null terminated), 'eof'."""

    __slots__ = ("elem", "form", "count", "text")

    def __init__(self, elem, form, count=None, text=None):
        self.elem, self.form, self.count = elem, form, count
        self.text = text

    def __repr__(self):
        return f"{self.elem!r}[{dim_text(self)}]"


class Fd:
    __slots__ = ("name", "t", "bits", "offset")

    def __init__(self, name, t, bits=None, offset=None):
        self.name, self.t, self.bits, self.offset = name, t, bits, offset

    def __repr__(self):
        return f"{self.t!r} {self.name}" + (f":{self.bits}" if self.bits else "")


class St(T):
    """name is None for an inline unnamed structure; align overrides the configuration when not None."""

    __slots__ = ("name", "fields", "union", "align", "top", "_lay")

    def __init__(self, name, fields, union=False, align=False, top=True):
        self.name, self.fields, self.union, self.align, self.top = name, fields, union, align, top

    def __repr__(self):
        return f"{'union' if self.union else 'struct'} {self.name}"


class Ex:
    """Length expression: text and an evaluator over a context dict."""

    __slots__ = ("text", "fn", "deps")

    def __init__(self, text, fn, deps=()):
        self.text, self.fn, self.deps = text, fn, deps


class Cfg:
    __slots__ = ("endian", "ptr", "consts", "big", "dynunion")

    def __init__(self, endian="<", ptr=None, consts=None):
        self.endian = endian
        self.ptr = ptr or SC["uint64"]
        self.consts = consts or {}
        self.dynunion = False  # unions with members of data-dependent size are within the workload
        self.big = None  # the length of "big" arrays, for gen.big_program

    @property
    def order(self):
        return "little" if self.endian == "<" or (self.endian in "=@" and sys.byteorder == "little") else "big"


def _i(n, size, signed, align=None):
    return Sc(n, "int", size, signed, align)


SC = {}
for _b, _al in ((8, 1), (16, 2), (24, 4), (32, 4), (48, 8), (64, 8), (128, 16)):
    for _p, _s in (("int", True), ("uint", False)):
        SC[f"{_p}{_b}"] = _i(f"{_p}{_b}", _b // 8, _s, _al)
SC["float16"] = Sc("float16", "float", 2)
SC["float"] = Sc("float", "float", 4)
SC["double"] = Sc("double", "float", 8)
SC["char"] = Sc("char", "char", 1)
SC["wchar"] = Sc("wchar", "wchar", 2)
SC["uleb128"] = Sc("uleb128", "leb", None, False, 1)
SC["ileb128"] = Sc("ileb128", "leb", None, True, 1)
SC["void"] = Sc("void", "void", 0, False, 1)

FLOATFMT = {2: "e", 4: "f", 8: "d"}

# every documented alias -> internal type
ALIASES = {
    "signed char": "int8", "unsigned char": "char", "short": "int16", "signed short": "int16",
    "unsigned short": "uint16", "int": "int32", "signed int": "int32", "unsigned int": "uint32", "long": "int32",
    "signed long": "int32", "unsigned long": "uint32", "long long": "int64", "signed long long": "int64",
    "unsigned long long": "uint64",
    "BYTE": "uint8", "CHAR": "char", "SHORT": "int16", "WORD": "uint16", "DWORD": "uint32", "LONG": "int32",
    "LONG32": "int32", "LONG64": "int64", "LONGLONG": "int64", "QWORD": "uint64", "OWORD": "uint128", "WCHAR": "wchar",
    "UCHAR": "uint8", "USHORT": "uint16", "ULONG": "uint32", "ULONG64": "uint64", "ULONGLONG": "uint64",
    "INT": "int32", "INT8": "int8", "INT16": "int16", "INT32": "int32", "INT64": "int64", "INT128": "int128",
    "UINT": "uint32", "UINT8": "uint8", "UINT16": "uint16", "UINT32": "uint32", "UINT64": "uint64",
    "UINT128": "uint128",
    "__int8": "int8", "__int16": "int16", "__int32": "int32", "__int64": "int64", "__int128": "int128",
    "unsigned __int8": "uint8", "unsigned __int16": "uint16", "unsigned __int32": "uint32",
    "unsigned __int64": "uint64", "unsigned __int128": "uint128",
    "wchar_t": "wchar",
    "int8_t": "int8", "int16_t": "int16", "int32_t": "int32", "int64_t": "int64", "int128_t": "int128",
    "uint8_t": "uint8", "uint16_t": "uint16", "uint32_t": "uint32", "uint64_t": "uint64", "uint128_t": "uint128",
    "_BYTE": "uint8", "_WORD": "uint16", "_DWORD": "uint32", "_QWORD": "uint64", "_OWORD": "uint128",
    "u1": "uint8", "u2": "uint16", "u4": "uint32", "u8": "uint64", "u16": "uint128",
    "__u8": "uint8", "__u16": "uint16", "__u32": "uint32", "__u64": "uint64",
    "uchar": "uint8", "ushort": "uint16", "uint": "uint32", "ulong": "uint32",
}


def storage(t):
    """Storage type of a bit-field type."""
    return t.base if isinstance(t, En) else t


# ---------------------------------------------------------------------------------------------------- layout


def dynamic(t):
    return sizeof(t, Cfg()) is None


def alignof(t, cfg):
    if isinstance(t, Sc):
        return t.align
    if isinstance(t, En):
        return t.base.align
    if isinstance(t, Pt):
        return cfg.ptr.align
    if isinstance(t, Ar):
        return alignof(t.elem, cfg)
    return max([1] + [alignof(f.t, cfg) for f in t.fields])


def up(x, a):
    return (x + a - 1) // a * a


def sizeof(t, cfg):
    """Size in bytes, None when it depends on the data."""
    if isinstance(t, Sc):
        return t.size
    if isinstance(t, En):
        return t.base.size
    if isinstance(t, Pt):
        return cfg.ptr.size
    if isinstance(t, Ar):
        if t.form != "n":
            return None
        e = sizeof(t.elem, cfg)
        return None if e is None else max(0, t.count) * e
    return layout(t, cfg)[0]


def layout(st, cfg):
    """(size or None, alignment, [(offset or None, unit_first)] per field).

    unit_first: for a bit-field, True when it opens a storage unit.
    """
    al = alignof(st, cfg)
    if st.union:
        size = 0
        for f in st.fields:
            s = sizeof(f.t, cfg)
            if s is None:
                return None, al, [(f.offset or 0, False) for f in st.fields]
            if f.bits and f.bits > s * 8:
                raise OutOfDomain("bit-field wider than its storage unit")
            size = max(size, (f.offset or 0) + s)
        if st.align:
            size = up(size, al)
        return size, al, [(f.offset or 0, False) for f in st.fields]

    off = 0
    out = []
    unit_t, unit_left = None, 0
    for f in st.fields:
        if f.bits:
            s = storage(f.t)
            if unit_t is s and unit_left >= f.bits and f.offset is None:
                out.append((None, False))
                unit_left -= f.bits
                continue
            if unit_t is s and unit_left > 0 and unit_left < f.bits:
                raise OutOfDomain("straddled bit-field")
            unit_t, unit_left = s, s.size * 8 - f.bits
            if unit_left < 0:
                raise OutOfDomain("bit-field wider than its storage unit")
        else:
            unit_t, unit_left = None, 0
        if f.offset is not None:
            off = f.offset
        if off is not None and st.align:
            off = up(off, alignof(f.t, cfg))
        out.append((off, bool(f.bits)))
        s = sizeof(f.t, cfg)
        off = None if (off is None or s is None) else off + s
    if off is not None and st.align:
        off = up(off, al)
    return off, al, out


# ---------------------------------------------------------------------------------------------------- codecs


def dec_int(b, order, signed):
    v = 0
    for x in b if order == "big" else reversed(b):
        v = (v << 8) | x
    if signed and b and v >> (len(b) * 8 - 1):
        v -= 1 << (len(b) * 8)
    return v


def enc_int(v, size, order, signed):
    lo, hi = (-(1 << (size * 8 - 1)), (1 << (size * 8 - 1)) - 1) if signed else (0, (1 << (size * 8)) - 1)
    if not lo <= v <= hi:
        raise OverflowError(v)
    v &= (1 << (size * 8)) - 1
    out = bytes((v >> (8 * i)) & 0xFF for i in range(size))
    return out if order == "little" else out[::-1]


def dec_float(b, order):
    if order == "little":
        b = b[::-1]
    return ("f", bytes(b))


def float_is_nan(b, order):
    if order == "little":
        b = b[::-1]
    n = len(b) * 8
    v = int.from_bytes(b, "big")
    ebits = {16: 5, 32: 8, 64: 11}[n]
    mbits = n - 1 - ebits
    return ((v >> mbits) & ((1 << ebits) - 1)) == (1 << ebits) - 1 and v & ((1 << mbits) - 1) != 0


def canon_float(x, size):
    return ("f", struct.pack(">" + FLOATFMT[size], x))


def dec_leb(data, pos, signed):
    v = shift = 0
    p = pos
    while True:
        if p >= len(data):
            raise Short
        b = data[p]
        p += 1
        v |= (b & 0x7F) << shift
        shift += 7
        if not b & 0x80:
            break
    if signed and b & 0x40:
        v -= 1 << shift
    return v, p


def enc_leb(v, signed):
    if not signed and v < 0:
        raise ValueError(v)
    # number of 7-bit groups the value needs
    n = 1
    while True:
        lo, hi = (-(1 << (7 * n - 1)), (1 << (7 * n - 1)) - 1) if signed else (0, (1 << (7 * n)) - 1)
        if lo <= v <= hi:
            break
        n += 1
    return bytes(((v >> (7 * i)) & 0x7F) | (0x80 if i < n - 1 else 0) for i in range(n))


def dec_wstr(b, order):
    """UTF-16 decode; None when it is not valid."""
    units = [b[i] | b[i + 1] << 8 if order == "little" else b[i] << 8 | b[i + 1] for i in range(0, len(b), 2)]
    out = []
    i = 0
    while i < len(units):
        u = units[i]
        if 0xD800 <= u < 0xDC00:
            if i + 1 >= len(units) or not 0xDC00 <= units[i + 1] < 0xE000:
                return None
            out.append(chr(0x10000 + ((u - 0xD800) << 10) + (units[i + 1] - 0xDC00)))
            i += 2
            continue
        if 0xDC00 <= u < 0xE000:
            return None
        out.append(chr(u))
        i += 1
    return "".join(out)


def enc_wstr(s, order):
    out = bytearray()
    for ch in s:
        c = ord(ch)
        if c >= 0x10000:
            c -= 0x10000
            us = (0xD800 + (c >> 10), 0xDC00 + (c & 0x3FF))
        else:
            us = (c,)
        for u in us:
            out += bytes((u & 255, u >> 8)) if order == "little" else bytes((u >> 8, u & 255))
    return bytes(out)


# ---------------------------------------------------------------------------------------------------- parser


def nullable(t, cfg=None):
    """Whether an element of this type can be the zero element that ends a null-terminated array."""
    if isinstance(t, Sc):
        return True
    if isinstance(t, (En, Pt)):
        return True
    if isinstance(t, Ar):
        return t.form in ("0", "n") and nullable(t.elem) or t.form == "e" and t.count.text in t.count.deps
    return bool(t.fields) and all(f.bits or nullable(f.t) for f in t.fields) and any(
        f.bits or not (isinstance(f.t, Sc) and f.t.kind == "void") for f in t.fields)


class Parser:
    """Reference parser; with a `src` it *generates* the input while parsing it."""

    def __init__(self, cfg, data=b"", src=None):
        self.cfg = cfg
        self.data = bytearray(data)
        self.src = src
        self.mask = bytearray(len(data))
        self.noncanon = None
        self.wchars = 0
        self.limit = max(1 << (18 if cfg.big else 16), 32 * (cfg.big or 0))
        self.feat = set()
        self.spans = []  # (path, start, end) of every leaf read
        self.elem_short = False

    # -- raw access
    def take(self, pos, n, t=None, path="", hint=None):
        if n > self.limit:
            raise OutOfDomain("value too large for the workload")
        end = pos + n
        if self.src is not None and end > len(self.data):
            gap = pos - len(self.data)
            if gap > 0:
                self.data += self.src.padding(gap)
            want = end - max(pos, len(self.data))
            if want == n and t is not None:
                self.data += self.src.scalar(t, self.cfg, hint)
            else:
                self.data += self.src.padding(want)
            if len(self.mask) < len(self.data):
                self.mask.extend(bytes(len(self.data) - len(self.mask)))
        if end > len(self.data):
            raise Short
        return bytes(self.data[pos:end])

    def mark(self, pos, n):
        for i in range(pos, pos + n):
            self.mask[i] = 0xFF

    def fail_noncanon(self, why):
        self.noncanon = why

    # -- values
    def parse(self, t, pos, hint=None):
        cfg = self.cfg
        if isinstance(t, Sc):
            return self._scalar(t, pos, hint)
        if isinstance(t, En):
            v, e = self._scalar(t.base, pos, hint if hint is not None else ("enum", t))
            return v, e
        if isinstance(t, Pt):
            v, e = self._scalar(cfg.ptr, pos, hint or ("ptr", t.target))
            return v, e
        if isinstance(t, Ar):
            return self._array(t, pos, {}, hint)
        return self._struct(t, pos)

    def _scalar(self, t, pos, hint=None):
        order = self.cfg.order
        if t.kind == "void":
            return None, pos
        if t.kind == "leb":
            if self.src is not None and pos >= len(self.data):
                gap = pos - len(self.data)
                if gap:
                    self.data += self.src.padding(gap)
                self.data += self.src.scalar(t, self.cfg, hint)
                self.mask.extend(bytes(len(self.data) - len(self.mask)))
            v, e = dec_leb(self.data, pos, t.signed)
            if bytes(self.data[pos:e]) != enc_leb(v, t.signed):
                self.fail_noncanon("leb")
            self.mark(pos, e - pos)
            return v, e
        b = self.take(pos, t.size, t, hint=hint)
        self.mark(pos, t.size)
        e = pos + t.size
        if t.kind == "int":
            return dec_int(b, order, t.signed), e
        if t.kind == "float":
            if float_is_nan(b, order):
                self.fail_noncanon("nan")
            return dec_float(b, order), e
        if t.kind == "char":
            return b, e
        if t.kind == "wchar":
            s = dec_wstr(b, order)
            if s is None:
                self.fail_noncanon("surrogate")
            return s, e
        raise AssertionError(t.kind)

    def _elem_iszero(self, t, v):
        if isinstance(t, St):
            return all([self._elem_iszero(f.t, v if f.name is None else v[f.name]) if not f.bits else v[f.name] == 0 for f in t.fields])
        if isinstance(t, Ar):
            if v is None or t.form != "n":
                return v is not None and len(v) == 0
            if isinstance(t.elem, Sc) and t.elem.kind in ("char", "wchar"):
                return not any(c not in (0, "\x00") for c in v)
            return all([self._elem_iszero(t.elem, x) for x in v])
        if isinstance(t, Sc) and v is None:
            return t.kind == "void"
        if isinstance(t, Sc) and t.kind == "float":
            if v[1][0] == 0x80 and not any(v[1][1:]):
                self.fail_noncanon("negative zero")
            return not any(v[1][1:]) and v[1][0] in (0, 0x80)
        return v in (0, b"\x00", "\x00", None)

    def _array(self, t, pos, ctx, hint=None):
        et = t.elem
        is_char = isinstance(et, Sc) and et.kind == "char"
        is_wchar = isinstance(et, Sc) and et.kind == "wchar"
        vals = []
        zero = hint == ("zero",)
        if t.form in ("n", "e"):
            n = t.count if t.form == "n" else t.count.fn({**self.cfg.consts, **ctx})
            n = max(0, n)
            if n > max(4096, (self.cfg.big or 0) + 2):
                raise OutOfDomain("array too long for the workload")
            if is_wchar:
                return self._wstr(pos, n, hint)
            if is_char:
                b = self.take(pos, n, Sc("chars", "chars", n), hint=hint) if n else b""
                self.mark(pos, n)
                return b, pos + n
            for _ in range(n):
                if isinstance(et, Ar):
                    v, pos = self._array(et, pos, ctx, hint if zero else None)
                elif isinstance(et, St):
                    v, pos = self._struct(et, pos, zero)
                else:
                    v, pos = self.parse(et, pos, hint if zero else None)
                vals.append(v)
            return vals, pos
        if t.form == "0":
            n = self.src.nullcount() if self.src is not None and not zero else 0
            start = pos
            while True:
                h = None
                if self.src is not None:
                    h = ("zero",) if len(vals) >= n else ("nonzero",)
                if isinstance(et, St) and self.src is not None:
                    v, pos = self._struct(et, pos, zero=h == ("zero",))
                elif is_wchar:
                    b = self.take(pos, 2, et, hint=h)
                    self.mark(pos, 2)
                    pos += 2
                    v = b
                    if b == b"\x00\x00":
                        break
                    vals.append(v)
                    continue
                else:
                    v, pos = self.parse(et, pos, h)
                if self._elem_iszero(et, v):
                    break
                vals.append(v)
            if is_char:
                return b"".join(vals), pos
            if is_wchar:
                s = dec_wstr(b"".join(vals), self.cfg.order)
                if s is None:
                    self.fail_noncanon("surrogate")
                return s, pos
            del start
            return vals, pos
        # to end of stream: every remaining whole element
        n = self.src.nullcount() if self.src is not None else None
        while True:
            if n is not None and len(vals) >= n:
                break
            if n is None and pos >= len(self.data):
                break
            try:
                v, npos = self.parse(et, pos) if not is_wchar else (self.take(pos, 2, et), pos + 2)
            except Short:
                self.elem_short = True
                for i in range(pos, len(self.data)):
                    self.mask[i] = 0
                break
            if is_wchar:
                self.mark(pos, 2)
            if npos == pos:
                raise OutOfDomain("zero-size element to end of stream")
            pos = npos
            vals.append(v)
        if is_char:
            return b"".join(vals), pos
        if is_wchar:
            s = dec_wstr(b"".join(vals), self.cfg.order)
            if s is None:
                self.fail_noncanon("surrogate")
            return s, pos
        return vals, pos

    def _wstr(self, pos, n, hint=None):
        raw = bytearray()
        for i in range(n):
            raw += self.take(pos + 2 * i, 2, SC["wchar"], hint=hint)
        self.mark(pos, 2 * n)
        s = dec_wstr(bytes(raw), self.cfg.order)
        if s is None:
            self.fail_noncanon("surrogate")
        return s, pos + 2 * n

    def _struct(self, st, start, zero=False):
        if st.union:
            if zero and self.src is not None and start >= len(self.data):
                end = start + (layout(st, self.cfg)[0] or 0)
                if start > len(self.data):
                    self.data += self.src.padding(start - len(self.data))
                self.data += bytes(end - len(self.data))
                self.mask.extend(bytes(len(self.data) - len(self.mask)))
            return self._union(st, start)
        cfg = self.cfg
        size, al, offs = layout(st, cfg)
        pos = start
        out = {}
        ctx = {}
        unit = None  # (storage, unit_pos, used_bits)
        for f, (off, first) in zip(st.fields, offs):
            if f.bits:
                s = storage(f.t)
                if first:
                    if off is not None:
                        pos = start + off
                    elif st.align:
                        pos = start + up(pos - start, alignof(f.t, cfg))
                    b = self.take(pos, s.size, s, hint=("zero",) if zero else ("unit", f.t))
                    unit = [s, pos, 0, b]
                    pos += s.size
                s, upos, used, b = unit
                nb = s.size * 8
                u = dec_int(b, cfg.order, False)
                sh = used if cfg.order == "little" else nb - used - f.bits
                v = (u >> sh) & ((1 << f.bits) - 1)
                m = ((1 << f.bits) - 1) << sh
                for i, x in enumerate(enc_int(m, s.size, cfg.order, False)):
                    self.mask[upos + i] |= x
                unit[2] += f.bits
                out[f.name] = v
                ctx[f.name] = v
                continue
            if off is not None:
                pos = start + off
            elif st.align:
                pos = start + up(pos - start, alignof(f.t, cfg))
            if isinstance(f.t, Ar):
                v, pos = self._array(f.t, pos, ctx, ("zero",) if zero else None)
            elif isinstance(f.t, St):
                v, pos = self._struct(f.t, pos, zero)
            else:
                v, pos = self.parse(f.t, pos, ("zero",) if zero else self.hint_for(st, f))
            if f.name is None:
                out.update(v)
            else:
                out[f.name] = v
                if isinstance(v, int):
                    ctx[f.name] = v
        if st.align:
            pos = start + up(pos - start, al)
            if self.src is not None and pos > len(self.data):
                self.data += self.src.padding(pos - len(self.data))
                self.mask.extend(bytes(len(self.data) - len(self.mask)))
        return out, pos

    def hint_for(self, st, f):
        if self.cfg.big and f.name == "biglen" and self.src is not None:
            return ("value", self.cfg.big)
        return None

    def _union(self, st, start):
        size, al, offs = layout(st, self.cfg)
        if size is None:
            return self._dynamic_union(st, start)
        if self.src is not None:
            m = self.src.pick([i for i, f in enumerate(st.fields)] or [None])
            if m is not None:
                self.parse(st.fields[m].t, start + offs[m][0])
            if start + size > len(self.data):
                self.data += self.src.padding(start + size - len(self.data))
                self.mask.extend(bytes(len(self.data) - len(self.mask)))
        out = {}
        src, self.src = self.src, None
        # a union is a fixed buffer: members may not look beyond it
        avail = bytes(self.data[start : start + size])
        sub = Parser(self.cfg, avail)
        for f, (off, _) in zip(st.fields, offs):
            if f.bits:
                # a bit-field member of a union opens its own unit
                one, _e = sub._struct(St(None, [Fd(f.name, f.t, f.bits)]), off)
                v = one[f.name]
            else:
                v, _e = sub.parse(f.t, off)
            if f.name is None:
                out.update(v)
            else:
                out[f.name] = v
        for i, x in enumerate(sub.mask):
            if start + i < len(self.mask):
                self.mask[start + i] |= x
        if sub.noncanon:
            self.noncanon = sub.noncanon
        self.src = src
        return out, start + size


    def _dynamic_union(self, st, start):
        """Every member from the same place, as long as the longest of them."""
        if not self.cfg.dynunion or st.align:
            raise OutOfDomain("dynamic union")
        src, self.src = self.src, None
        try:
            if src is not None:
                # enough for all of them, then cut back to what they used
                self.mask.extend(bytes(max(0, start - len(self.mask))))
                if start > len(self.data):
                    self.data += src.padding(start - len(self.data))
                self.data += bytes(src.rng.choice((0, 0, 1, 2, 3, 0x41, 0x80, src.rng.randrange(256))) for _ in range(src.rng.randrange(24))) + bytes(96)
                self.mask.extend(bytes(len(self.data) - len(self.mask)))
            out, ctx, end = {}, {}, start
            for f in st.fields:
                if f.bits:
                    v, e = self._struct(St(None, [Fd(f.name, f.t, f.bits)]), start)
                    v = v[f.name]
                elif isinstance(f.t, Ar):
                    v, e = self._array(f.t, start, ctx)
                else:
                    v, e = self.parse(f.t, start)
                end = max(end, e)
                if f.name is None:
                    out.update(v)
                else:
                    out[f.name] = v
                    if isinstance(v, int):
                        ctx[f.name] = v
        finally:
            self.src = src
        if src is not None:
            del self.data[end:], self.mask[end:]
        return out, end


def parse(t, data, cfg, pos=0):
    p = Parser(cfg, data)
    v, e = p.parse(t, pos)
    return v, e, p


# ---------------------------------------------------------------------------------------------------- encoder


def encode(t, v, cfg):
    """Canonical value -> (bytes, mask) with zero padding; a union value is encoded from all of its members."""
    if isinstance(t, Sc):
        if t.kind == "void":
            return b"", b""
        if t.kind == "leb":
            b = enc_leb(v, t.signed)
        elif t.kind == "int":
            b = enc_int(v, t.size, cfg.order, t.signed)
        elif t.kind == "float":
            b = v[1] if cfg.order == "big" else v[1][::-1]
        elif t.kind == "char":
            b = v
        else:
            b = enc_wstr(v, cfg.order)
        return b, b"\xff" * len(b)
    if isinstance(t, En):
        return encode(t.base, v, cfg)
    if isinstance(t, Pt):
        return encode(cfg.ptr, v, cfg)
    if isinstance(t, Ar):
        et = t.elem
        if isinstance(et, Sc) and et.kind in ("char", "wchar"):
            b = v if et.kind == "char" else enc_wstr(v, cfg.order)
            if t.form == "0":
                b += bytes(et.size)
            return b, b"\xff" * len(b)
        items = list(v)
        if t.form == "0":
            items.append(zero(et, cfg))
        bs = [encode(et, x, cfg) for x in items]
        return b"".join(x for x, _ in bs), b"".join(m for _, m in bs)
    size, al, offs = layout(t, cfg)
    if t.union:
        buf, mask = bytearray(size), bytearray(size)
        for f, (off, _) in zip(t.fields, offs):
            if f.bits:
                b, m = encode(St(None, [Fd(f.name, f.t, f.bits)]), {f.name: v[f.name]}, cfg)
            else:
                b, m = encode(f.t, v if f.name is None else v[f.name], cfg)
            for i, (x, y) in enumerate(zip(b, m)):
                buf[off + i] |= x & y
                mask[off + i] |= y
        return bytes(buf), bytes(mask)
    out, mask = bytearray(), bytearray()
    unit = None
    for f, (off, first) in zip(t.fields, offs):
        if f.bits and not first:
            pos = unit[0]
        else:
            pos = off if off is not None else (up(len(out), alignof(f.t, cfg)) if t.align else len(out))
            pad = bytes(pos - len(out))
            out += pad
            mask += pad
        if f.bits:
            s = storage(f.t)
            if first:
                unit = [pos, 0]
                out += bytes(s.size)
                mask += bytes(s.size)
            nb = s.size * 8
            sh = unit[1] if cfg.order == "little" else nb - unit[1] - f.bits
            val = v[f.name]
            if not 0 <= val < 1 << f.bits:
                raise OverflowError(val)
            for i, x in enumerate(enc_int(val << sh, s.size, cfg.order, False)):
                out[pos + i] |= x
            for i, x in enumerate(enc_int(((1 << f.bits) - 1) << sh, s.size, cfg.order, False)):
                mask[pos + i] |= x
            unit[1] += f.bits
            continue
        b, m = encode(f.t, v if f.name is None else v[f.name], cfg)
        out += b
        mask += m
    if t.align:
        pad = bytes(up(len(out), al) - len(out))
        out += pad
        mask += pad
    return bytes(out), bytes(mask)


def zero(t, cfg):
    """Zero value of a type."""
    if isinstance(t, Sc):
        return {"int": 0, "leb": 0, "char": b"\x00", "wchar": "\x00", "void": None}.get(t.kind) if t.kind != "float" else (
            "f", bytes(t.size))
    if isinstance(t, (En, Pt)):
        return 0
    if isinstance(t, Ar):
        n = max(0, t.count) if t.form == "n" else 0
        if isinstance(t.elem, Sc) and t.elem.kind == "char":
            return b"\x00" * n
        if isinstance(t.elem, Sc) and t.elem.kind == "wchar":
            return "\x00" * n
        return [zero(t.elem, cfg) for _ in range(n)]
    out = {}
    for f in t.fields:
        if f.name is None:
            out.update(zero(f.t, cfg))
        else:
            out[f.name] = 0 if f.bits else zero(f.t, cfg)
    return out


# ---------------------------------------------------------------------------------------------------- canonicalise


def canon(t, v, bits=None):
    """Value object of the code under test -> canonical value (by attribute access only)."""
    if bits:
        if not isinstance(v, int):
            return ("bad-bits", repr(v))
        return int(v)
    if isinstance(t, Sc):
        if t.kind in ("int", "leb"):
            return int(v) if isinstance(v, int) else ("bad-int", repr(v))
        if t.kind == "float":
            return canon_float(float(v), t.size) if isinstance(v, float) else ("bad-float", repr(v))
        if t.kind == "char":
            return bytes(v) if isinstance(v, bytes) else ("bad-char", repr(v))
        if t.kind == "wchar":
            return "".join(v) if isinstance(v, str) else ("bad-wchar", repr(v))
        return None
    if isinstance(t, En):
        return int(v.value) if hasattr(v, "value") and isinstance(v, int) and int(v) == v.value else (
            "bad-enum", repr(v), type(v).__name__)
    if isinstance(t, Pt):
        return int(v) if isinstance(v, int) else ("bad-ptr", repr(v))
    if isinstance(t, Ar):
        if isinstance(t.elem, Sc) and t.elem.kind == "char":
            return bytes(v) if isinstance(v, bytes) else ("bad-chararray", repr(v))
        if isinstance(t.elem, Sc) and t.elem.kind == "wchar":
            return "".join(v) if isinstance(v, str) else ("bad-wchararray", repr(v))
        if not isinstance(v, list):
            return ("bad-array", repr(v))
        return [canon(t.elem, x) for x in v]
    out = {}
    for f in t.fields:
        if f.name is None:
            out.update(canon(f.t, v))
        else:
            out[f.name] = canon(f.t, getattr(v, f.name), f.bits)
    return out


# ---------------------------------------------------------------------------------------------------- rendering


def dim_text(a):
    if a.text is not None:
        return a.text
    if a.form == "n":
        return str(a.count)
    if a.form == "e":
        return a.count.text
    return "" if a.form == "0" else "EOF"


def declarator(t, name):
    """(base type, declarator text) of a field of type t."""
    dims = ""
    while isinstance(t, Ar):
        dims += f"[{dim_text(t)}]"
        t = t.elem
    stars = ""
    while isinstance(t, Pt):
        stars += "*"
        t = t.target
        if isinstance(t, Ar):
            raise OutOfDomain("pointer to array needs a typedef")
    return t, f"{stars}{name}{dims}"


def type_text(t, names, indent):
    if isinstance(t, St):
        if t.name is not None and t.top:
            return names.get(t.name, t.name)
        return struct_text(t, names, indent)
    if isinstance(t, En):
        return t.name
    return names.get(t.name, t.name) if isinstance(t, Sc) else t.name


def struct_text(st, names=None, indent=""):
    names = names or {}
    kw = "union" if st.union else "struct"
    lines = [f"{kw} {st.name} {{" if st.name else f"{kw} {{"]
    for f in st.fields:
        base, decl = declarator(f.t, f.name or "")
        tt = type_text(base, names, indent + "    ")
        line = f"{indent}    {tt}"
        if decl:
            line += f" {decl}"
        if f.bits:
            line += f" : {f.bits}"
        lines.append(line + ";")
    lines.append(f"{indent}}}")
    return "\n".join(lines)


def enum_text(en):
    kw = "flag" if en.flag else "enum"
    head = f"{kw} {en.name} : {en.base_text or en.base.name} {{" if en.name else f"{kw} : {en.base_text or en.base.name} {{"
    body = ",\n".join(f"    {n} = {x}" if x is not None else f"    {n}" for n, x in en.raw)
    return f"{head}\n{body}\n}};"


def auto_members(raw, flag):
    """[(name, int or None)] -> numbered members, as in C / next higher power of two for flags."""
    out = []
    nxt = 1 if flag else 0
    for n, v in raw:
        v = nxt if v is None else v
        out.append((n, v))
        nxt = (1 << max(0, v.bit_length())) if flag else v + 1
    return out


def deps(t, seen=None, busy=()):
    """Named (top-level) types needed by t, dependencies first (a pointer to an enclosing structure adds nothing)."""
    seen = [] if seen is None else seen
    if isinstance(t, Ar):
        deps(t.elem, seen, busy)
    elif isinstance(t, Pt):
        deps(t.target, seen, busy)
    elif isinstance(t, En):
        if t not in seen:
            seen.append(t)
    elif isinstance(t, St):
        if t in seen or any(t is b for b in busy):
            return seen
        for f in t.fields:
            deps(f.t, seen, (*busy, t))
        if t.top and t.name and t not in seen:
            seen.append(t)
    return seen


def program_text(root, consts=None, names=None):
    out = [f"#define {k} {v}" for k, v in (consts or {}).items()]
    for t in deps(root):
        out.append(enum_text(t) if isinstance(t, En) else struct_text(t, names) + ";")
    return "\n".join(out) + "\n"


def walk(t, fn, depth=0):
    """Call fn(t, depth) on every type inside t."""
    fn(t, depth)
    if isinstance(t, Ar):
        walk(t.elem, fn, depth + 1)
    elif isinstance(t, Pt):
        pass
    elif isinstance(t, St):
        for f in t.fields:
            walk(f.t, fn, depth + 1)


def features(t):
    out = set()

    def see(x, d):
        if isinstance(x, Sc):
            out.add(x.name)
        elif isinstance(x, En):
            out.add("flag" if x.flag else "enum")
        elif isinstance(x, Pt):
            out.add("ptr")
        elif isinstance(x, Ar):
            out.add("arr" + x.form)
        elif isinstance(x, St):
            out.add("union" if x.union else "struct")
            if any(f.bits for f in x.fields):
                out.add("bits")
            if any(f.name is None for f in x.fields):
                out.add("anon")
            if x.align:
                out.add("aligned")

    walk(t, see)
    return out
