"""C19 utilities: hex dumps read back byte by byte, palettes against none, dumpstruct against the value, integer helpers against bit arithmetic."""
from __future__ import annotations

import ast
import contextlib
import io
import itertools
import re

from . import gen, lib
from . import model as M
from .boot import cstruct
from .common import MODES, Err, call, mode_name
from .common import load as load_program

PID = "C19"
ANCHORS = ["utils.py"]
RULE = ("Hex dumps: every length from 0 to 80 and sampled longer ones, data of every byte value, offsets, prefixes and palettes (all sequences of up to "
        "three entries over sizes around a line, and random ones with zero sizes and empty codes); the text is read back byte by byte, and must be the "
        "same text with a palette once colour codes are removed.  dumpstruct: random programs, parsed, constructed, nested and from a type with data, coloured and "
        "plain, printed and returned; hex area read back, every field's line and value.  Integers: all values of 8 and 16 bits, boundaries and random "
        "values of widths up to 520 bits, every spelling of the byte order, against shift and mask arithmetic.  Non-trivial: text read back or value compared; distinct by input.")
ASSUMPTIONS = ["swap takes non-negative integers (an integer alone does not tell 0xffff from -1)", "the type form of dumpstruct gets exactly the bytes of the structure",
               "native byte order is this machine's", "colour codes are terminal escape sequences or empty strings", "columns may be spaced differently"]
REQUIRED = ["hexdumps", "hex_lines", "hex_bytes", "palettes", "zero_entries", "palette_longer", "palette_shorter", "empty_codes", "offsets", "prefixes", "printed", "generated",
            "dumpstructs", "dump_colored", "dump_plain", "dump_printed", "dump_type_form", "dump_constructed", "dump_nested", "field_lines", "list_values", "nested_values", "union_dumps",
            "bit_dumps", "dynamic_dumps", "packs", "unpacks", "helpers", "swaps", "out_of_range", "negative", "unsized", "wrong_length"]

ANSI = re.compile(r"\x1b\[[0-9;:]*m")
SIZES = (0, 1, 2, 15, 16, 17)
CODES = ["\x1b[1;31m", "\x1b[1;41m\x1b[1;37m", "\x1b[0m", "\x1b[38;5;12m", "\x1b[38;2;1;2;3m", "\x1b[m", "\x1b[7m"]


def printable(b):
    return chr(b) if 0x20 <= b <= 0x7E else "."


def read_back(text, data, offset=0, prefix=""):
    """None when the dump lists data exactly; else what is wrong."""
    lines = text.split("\n") if text else []
    if len(lines) != (len(data) + 15) // 16:
        return f"{len(lines)} lines for {len(data)} bytes"
    for k, line in enumerate(lines):
        part = data[k * 16:k * 16 + 16]
        if not line.startswith(prefix):
            return f"line {k}: prefix"
        rest = line[len(prefix):]
        m = re.match(r"([0-9a-fA-F]+)[ :]", rest)
        if not m or int(m.group(1), 16) != offset + 16 * k or len(m.group(1)) < 8:
            return f"line {k}: offset {rest[:12]!r}, expected {offset + 16 * k:08x}"
        rest = rest[m.end():]
        for j, b in enumerate(part):
            m = re.match(r"\s*([0-9a-fA-F]{2})(?=\s|$)", rest)
            if not m or int(m.group(1), 16) != b:
                return f"line {k}: byte {j} of {part.hex()} in {line!r}"
            rest = rest[m.end():]
        chars = "".join(map(printable, part))
        if not rest.endswith(chars) or rest[:len(rest) - len(chars)].strip():
            return f"line {k}: characters {rest!r}"
    return None


def utils():
    from dissect.cstruct import utils as u

    return u


def dump(ctx, data, palette=None, offset=0, prefix="", mode="string"):
    u = utils()
    if mode == "print":
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            r = call(lambda: u.hexdump(data, palette, offset=offset, prefix=prefix))
        ctx.ev("printed")
        if isinstance(r, Err):
            return r
        t = buf.getvalue()
        return t[:-1] if t.endswith("\n") else t
    r = call(lambda: u.hexdump(data, palette, offset=offset, prefix=prefix, output=mode))
    if mode == "generator" and not isinstance(r, Err):
        ctx.ev("generated")
        r = call(lambda: "\n".join(r))
    return r


def judge_hexdump(ctx, data, palette, offset, prefix, mode):
    plain = bytes(data)

    def d(**kw):
        return {"data": plain.hex(), "palette": palette, "offset": offset, "prefix": prefix, "output": mode, **kw}

    before = list(palette) if palette is not None else None
    got = dump(ctx, data, palette, offset, prefix, mode)
    ctx.ev("hexdumps")
    if not ctx.check(isinstance(got, str), "hexdump", lambda: d(got=repr(got))):
        return False
    bad = read_back(ANSI.sub("", got), plain, offset, prefix)
    ctx.ev("hex_lines", (len(plain) + 15) // 16)
    ctx.ev("hex_bytes", len(plain))
    if not ctx.check(bad is None, "hexdump", lambda: d(wrong=bad, got=got)):
        return False
    if palette is not None:
        ctx.ev("palettes")
        none = dump(ctx, plain, None, offset, prefix)
        if not ctx.check(isinstance(none, str) and ANSI.sub("", got) == ANSI.sub("", none), "palette", lambda: d(plain=none, coloured=got)):
            return False
        ctx.check(palette == before, "palette-changed", lambda: d(before=before))
    ctx.key(plain, palette, offset, prefix, mode)
    return True


def n_exhaustive():
    return 9


def w_palettes(ctx, i):
    """Every palette of up to three entries with sizes around a line, on lengths around multiples of 16."""
    rng = ctx.rng
    n = (0, 1, 15, 16, 17, 31, 32, 33, 48)[i]
    for k in range(4):
        for sizes in itertools.product(SIZES, repeat=k):
            data = rng.randbytes(n)
            palette = [(s, rng.choice(CODES)) for s in sizes]
            if 0 in sizes:
                ctx.ev("zero_entries")
            if sum(sizes) > n:
                ctx.ev("palette_longer")
            elif sum(sizes) < n:
                ctx.ev("palette_shorter")
            if not judge_hexdump(ctx, data, palette, 0, "", "string"):
                return


def w_lengths(ctx, i):
    """Every length up to 80, all output forms; all byte values."""
    rng = ctx.rng
    for data in (rng.randbytes(i), bytes(i), bytes((i * 7 + j) % 256 for j in range(i)), b"de ad 00000010  " * (i // 16) + b"0" * (i % 16), b" " * i):
        for mode in ("string", "generator", "print"):
            judge_hexdump(ctx, data, None, 0, "", mode)
    if i == 0:
        judge_hexdump(ctx, bytes(range(256)), None, 0, "", "string")
        for m in ("str", "", "STRING", "list"):
            ctx.check(isinstance(call(utils().hexdump, b"", None, output=m), Err), "output-form", {"output": m})


def w_hexdump(ctx, i):
    """Random data, offsets, prefixes and palettes."""
    rng = ctx.rng
    for _ in range(10):
        n = rng.choice((0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 255, 256, 257, rng.randrange(300), rng.randrange(40), rng.randrange(40)))
        data = rng.randbytes(n) if rng.random() < 0.6 else bytes(rng.choice(b"0123456789abcdef \x1b[1;31m\n\r\x00\x7f\x80\xff|.") for _ in range(n))
        if rng.random() < 0.2:
            data = rng.choice((bytearray, memoryview))(data)
        offset = rng.choice((0, 0, 1, 16, 0x7FFFFFFF, 0xFFFFFFF0, 0xFFFFFFFF, 1 << 32, 1 << 63, 1 << 64, rng.getrandbits(20), rng.getrandbits(40)))
        if offset:
            ctx.ev("offsets")
        prefix = rng.choice(("", "", "  ", "> ", "# ff ", "0x", "\t", "00000000  ", "日本 ", "a" * 30))
        if prefix:
            ctx.ev("prefixes")
        palette = None
        if rng.random() < 0.75:
            palette = []
            for _ in range(rng.choice((0, 1, 2, 3, 5, 12, 40))):
                s = rng.choice((0, 0, 1, 1, 2, 4, 8, 15, 16, 17, 32, rng.randrange(50)))
                c = rng.choice((*CODES, ""))
                if s == 0:
                    ctx.ev("zero_entries")
                if not c:
                    ctx.ev("empty_codes")
                palette.append((s, c))
            if rng.random() < 0.25:
                palette.append((0, rng.choice(CODES)))
        if not judge_hexdump(ctx, data, palette, offset, prefix, rng.choice(("string", "string", "generator", "print"))):
            return
    ctx.sample({"data": bytes(data).hex()[:80], "palette": palette, "offset": offset, "prefix": prefix})


# ------------------------------------------------------------------------------------------------ dumpstruct


def squeeze(s):
    return re.sub(r"\s+", "", re.sub(r"object at 0x\w+", "object", s))


def value_ok(ctx, t, text, value):
    """Does the text show the value?"""
    from dissect.cstruct.types import Pointer

    if isinstance(value, list):
        ctx.ev("list_values")
        if squeeze(text) == squeeze(repr(list(value))):
            return True
        try:
            return ast.literal_eval(text.strip()) == list(value)
        except (ValueError, SyntaxError):
            return False
    if isinstance(value, (bytes, str)):
        try:
            return ast.literal_eval(text) == value
        except (ValueError, SyntaxError):
            return text == value
    if isinstance(t, M.En) or isinstance(value, Pointer):
        return text == repr(value) and (str(int(value)) in text or hex(int(value)) in text)
    if isinstance(value, int):
        try:
            return int(text, 0) == int(value)
        except ValueError:
            return False
    if isinstance(value, float):
        return float(text) == value and (value != 0 or text.startswith("-") == repr(value).startswith("-"))
    if isinstance(t, M.St):
        ctx.ev("nested_values")
        if squeeze(text) != squeeze(repr(value)):
            return False
        return nested_ok(t, text)
    return squeeze(text) == squeeze(repr(value))


def nested_ok(t, text):
    """Every leaf name of a nested structure is in its text."""
    for f in t.fields:
        if f.name is None:
            if not nested_ok(f.t, text):
                return False
        elif f"{f.name}=" not in text:
            return False
    return True


def read_fields(ctx, t, obj, text, d):
    """Every field has its line, in order, with its value."""
    T = obj.__class__
    names = [F._name for F in T.__fields__]
    lines = text.split("\n")
    if not ctx.check(bool(lines) and T.__name__ in lines[0], "field-list", lambda: d(text=text)):
        return
    pos = 1
    for k, (f, F) in enumerate(zip(t.fields, T.__fields__)):
        head = f"- {F._name}: "
        if not ctx.check(pos < len(lines) and lines[pos].startswith(head), "field-missing", lambda: d(field=F._name, text=text)):
            return
        val = [lines[pos][len(head):]]
        pos += 1
        while pos < len(lines) and not lines[pos].startswith("- "):
            val.append(lines[pos])
            pos += 1
        ctx.ev("field_lines")
        value = getattr(obj, F._name)
        mt = None if f.bits and not isinstance(f.t, M.En) else f.t
        got = "\n".join(val)
        if not ctx.check(value_ok(ctx, mt, got, value), "field-value", lambda: d(field=F._name, value=repr(value), shown=got)):
            return
    ctx.check(pos == len(lines) and len(names) == len(t.fields), "field-list", lambda: d(extra=lines[pos:]))


def judge_dumpstruct(ctx, t, obj, want, d, arg=None, data=None, offset=0, color=True, printed=False):
    """arg: the object or the type (then with data)."""
    u = utils()
    arg = obj if arg is None else arg
    if printed:
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            r = call(lambda: u.dumpstruct(arg, data, offset=offset, color=color))
        got = r if isinstance(r, Err) else buf.getvalue()
        ctx.ev("dump_printed")
    else:
        got = call(lambda: u.dumpstruct(arg, data, offset=offset, color=color, output="string"))
    ctx.ev("dumpstructs")
    ctx.ev("dump_colored" if color else "dump_plain")

    def dd(**kw):
        return d(expected_bytes=want.hex(), offset=offset, color=color, printed=printed, form="type" if data is not None else "object", **kw)

    if not ctx.check(isinstance(got, str), "dumpstruct", lambda: dd(got=repr(got))):
        return None
    text = ANSI.sub("", got)
    k = text.find(f"struct {obj.__class__.__name__}:")
    hexed, fields = text[:k].strip("\n"), text[k:].rstrip("\n")
    if not ctx.check(k >= 0, "field-list", lambda: dd(got=got)):
        return None
    bad = read_back(hexed, want, offset)
    if not ctx.check(bad is None, "dumpstruct-bytes", lambda: dd(wrong=bad, got=text)):
        return None
    read_fields(ctx, t, obj, fields, dd)
    return text


def w_dumpstruct(ctx, i):
    rng = ctx.rng
    g = gen.Gen(rng, gen.Profile(depth=2, fields=(1, 8), nested=0.25, bits=0.3, union=0.15, dyn=0.3))
    root, cfg = g.program(union=rng.random() < 0.15), g.cfg
    progs = load_program(ctx, root, cfg, (rng.random() < 0.5,))
    if not progs:
        return
    comp, (cs, T) = next(iter(progs.items()))
    if root.union:
        ctx.ev("union_dumps")
    if any(f.bits for f in root.fields):
        ctx.ev("bit_dumps")
    if M.dynamic(root):
        ctx.ev("dynamic_dumps")
    for _ in range(2):
        x = gen.gen_data(rng, root, cfg)
        if x is None:
            return
        data, v, end, q = x
        data = data[:end].ljust(end, b"\0")

        def d(**kw):
            return {**lib.describe(root, cfg), "mode": mode_name(comp), "input": data.hex(), **kw}

        obj = call(T, data)
        if isinstance(obj, Err):
            continue
        exact = call(obj.dumps)
        if isinstance(exact, Err):
            continue
        off = rng.choice((0, 0, 5, 0x1000, 0xFFFFFFF0))
        texts = []
        for color in (False, True):
            texts.append(judge_dumpstruct(ctx, root, obj, exact, d, offset=off, color=color, printed=rng.random() < 0.3))
        if None not in texts:
            ctx.check(texts[0].strip("\n") == texts[1].strip("\n") or "object at" in texts[0], "colour", lambda: d(plain=texts[0], coloured=texts[1]))
        if len(data) == end:
            ctx.ev("dump_type_form")
            judge_dumpstruct(ctx, root, call(T, data), data, d, arg=T, data=data, offset=off, color=rng.random() < 0.5, printed=rng.random() < 0.2)
        # nested structures and built ones
        for f, F in zip(root.fields, T.__fields__):
            if isinstance(f.t, M.St):
                sub = getattr(obj, F._name)
                b = call(sub.dumps)
                if not isinstance(b, Err):
                    ctx.ev("dump_nested")
                    judge_dumpstruct(ctx, f.t, sub, b, d, color=rng.random() < 0.5)
        void = {F._name for F in T.__fields__ if F.type.__name__ == "void"}
        kw = {F._name: getattr(obj, F._name) for F in T.__fields__ if rng.random() < 0.7 and F._name not in void}
        made = call(T) if root.union or not kw else call(lambda: T(**kw))
        b = call(lambda: made.dumps())
        if isinstance(b, bytes):
            ctx.ev("dump_constructed")
            judge_dumpstruct(ctx, root, made, b, d, color=rng.random() < 0.7)
        ctx.key(M.program_text(root, cfg.consts), comp, data)
    for bad in ((lambda: utils().dumpstruct(T)), (lambda: utils().dumpstruct(obj, output="generator"))):
        ctx.check(isinstance(call(bad), Err), "bad-arguments", {})
    ctx.sample({**lib.describe(root, cfg), "input": data.hex(), "dump": texts[0]})


HOSTILE = ["anonymous", "size", "name", "type", "fields", "lookup", "data", "offset", "color", "palette", "__class__x", "value", "output", "dumps_", "structure", "_", "E"]


def n_names():
    return len(HOSTILE)


def w_names(ctx, i):
    """Field, member and type names that are also attributes of the machinery."""
    nm = HOSTILE[i]
    for comp in MODES:
        for text, data, want in (
            (f"struct T {{ uint8 {nm}; uint8 z; }};", b"\x01\x02", [(nm, "0x1"), ("z", "0x2")]),
            (f"enum X : uint8 {{ {nm} = 1, other }};\nstruct T {{ X x; uint8 z; X b:4; X c:4; }};", b"\x01\x02\x21", [("x", f"<X.{nm}: 1>"), ("z", "0x2"), ("b", f"<X.{nm}: 1>"), ("c", "<X.other: 2>")]),
            (f"flag X : uint8 {{ {nm} = 1, other }};\nstruct T {{ X x; uint8 z; }};", b"\x01\x02", [("x", f"<X.{nm}: 1>"), ("z", "0x2")]),
            (f"struct X {{ uint8 {nm}; }};\nstruct T {{ X x; uint8 z; }};", b"\x01\x02", [("x", f"<X {nm}=0x1>"), ("z", "0x2")]),
            (f"struct T {{ struct {{ struct {{ uint8 {nm}; }}; uint8 k; }} x; uint8 z; }};", b"\x01\x02\x03", [("x", f" {nm}=0x1 k=0x2>"), ("z", "0x3")]),
            (f"struct {nm}_t {{ uint8 q; }};\nstruct T {{ {nm}_t {nm}; uint8 z; }};", b"\x01\x02", [(nm, f"<{nm}_t q=0x1>"), ("z", "0x2")]),
        ):
            cs = cstruct()
            r = call(cs.load, text, compiled=comp)
            if isinstance(r, Err):
                # members of enumerations can't have the names of the type's own attributes
                ctx.check(text.startswith(("enum", "flag")) and nm in ("size", "type", "cs", "alignment", "dynamic"), "definition-rejected", lambda: {"definition": text, "raised": repr(r)})
                continue
            T = cs.resolve("T")
            got = call(lambda: utils().dumpstruct(T(data), color=bool(i % 2), output="string"))
            if not ctx.check(isinstance(got, str), "dumpstruct", lambda: {"definition": text, "got": repr(got)}):
                continue
            plain = ANSI.sub("", got)
            lines = plain.split("\n")
            for n, v in want:
                ctx.check(any(ln.startswith(f"- {n}: ") and ln.endswith(v) for ln in lines), "field-missing", lambda: {"definition": text, "field": n, "value": v, "got": plain})
            ctx.key(text, comp)


# ------------------------------------------------------------------------------------------------ integers

ORDERS = {"little": 0, "<": 0, "big": 1, ">": 1, "!": 1, "network": 1, "@": None, "=": None}


def encode(v, nbytes, big):
    out = []
    for k in range(nbytes):
        out.append((v >> (8 * k)) & 0xFF)      # arithmetic shift: two's complement
    if big:
        out.reverse()
    return bytes(out)


def order(name):
    import sys

    o = ORDERS[name]
    return (sys.byteorder == "big") if o is None else bool(o)


def judge_int(ctx, v, bits, e):
    """v fits bits (signed if negative)."""
    u = utils()
    nb = (bits + 7) // 8
    want = encode(v, nb, order(e))

    def d(**kw):
        return {"value": v, "bits": bits, "endian": e, **kw}

    got = call(u.pack, v, bits, e)
    ctx.ev("packs")
    if v < 0:
        ctx.ev("negative")
    if not ctx.check(got == want, "pack", lambda: d(expected=want, got=repr(got))):
        return False
    back = call(u.unpack, want, bits, e, v < 0)
    ctx.ev("unpacks")
    if not ctx.check(back == v and type(back) is int, "unpack", lambda: d(expected=v, got=repr(back))):
        return False
    # the other reading of the same bytes
    m = sum(b << (8 * (len(want) - 1 - k if order(e) else k)) for k, b in enumerate(want))
    s = m - (1 << 8 * nb) if m >> (8 * nb - 1) else m
    ctx.check(call(u.unpack, want, bits, e, False) == m and call(u.unpack, want, bits, e, True) == s and call(u.unpack, want, None, e, True) == s, "unpack", lambda: d(bytes=want.hex(), unsigned=m, signed=s))
    p, q = {8: (u.p8, u.u8), 16: (u.p16, u.u16), 32: (u.p32, u.u32), 64: (u.p64, u.u64)}.get(bits, (None, None))
    if p:
        ctx.ev("helpers")
        ctx.check(call(p, v, e) == want, "helper-pack", lambda: d(got=repr(call(p, v, e)), expected=want))
        ctx.check(call(q, want, e, v < 0) == v and call(q, want, e) == m, "helper-unpack", lambda: d(got=repr(call(q, want, e, v < 0))))
        if e == "little":
            ctx.check(call(p, v) == want and call(q, want) == m, "helper-default", lambda: d())
    if v >= 0:
        judge_swap(ctx, v, bits)
    return True


def judge_swap(ctx, v, bits):
    u = utils()
    nb = (bits + 7) // 8
    want = sum(((v >> (8 * k)) & 0xFF) << (8 * (nb - 1 - k)) for k in range(nb))
    got = call(u.swap, v, bits)
    ctx.ev("swaps")
    ok = ctx.check(got == want, "swap", lambda: {"value": v, "bits": bits, "expected": want, "got": repr(got)})
    ok &= ctx.check(call(u.swap, want, bits) == v, "swap-twice", lambda: {"value": v, "bits": bits, "once": want, "twice": repr(call(u.swap, want, bits))})
    h = {16: u.swap16, 32: u.swap32, 64: u.swap64}.get(bits)
    if h:
        ctx.check(call(h, v) == want and call(h, want) == v, "swap-helper", lambda: {"value": v, "bits": bits, "expected": want, "got": repr(call(h, v))})
    return ok


def w_small(ctx, i):
    """All 8 bit values, and a sixteenth of all 16 bit values."""
    names = list(ORDERS)
    for v in range(-128, 256):
        if (v & 15) == i:
            for e in names:
                judge_int(ctx, v, 8, e)
    for k, v in enumerate(range(-32768 + i, 65536, 16)):
        if not judge_int(ctx, v, 16, names[(k + i) % len(names)]):
            return
        ctx.key("16", v)


def w_ints(ctx, i):
    """Boundaries and random values of one width."""
    rng = ctx.rng
    bits = (8, 16, 24, 32, 40, 48, 56, 64, 72, 80, 96, 112, 128, 160, 256, 512, 520, 4096, 1, 3, 7, 9, 12, 15, 17, 20, 31, 33, 63, 65)[i % 30]
    u = utils()
    vals = set()
    for k in (0, 1, 7, 8, bits // 2, bits - 2, bits - 1, bits):
        if k < 0:
            continue
        for dlt in (-1, 0, 1):
            vals.add((1 << k) + dlt)
            vals.add(-(1 << k) + dlt)
    for _ in range(30):
        vals.add(gen.edge_int(rng, (bits + 7) // 8))
        vals.add(rng.getrandbits(bits))
        vals.add(-rng.getrandbits(bits))
        vals.add(int.from_bytes(bytes(rng.choice((0, 1, 0x7F, 0x80, 0xFF)) for _ in range((bits + 7) // 8)), "big"))
    nb = (bits + 7) // 8
    for v in sorted(vals):
        e = rng.choice(list(ORDERS))
        if -(1 << (bits - 1)) <= v < (1 << bits):
            if not judge_int(ctx, v, bits, e):
                return
            ctx.key(v, bits, e)
        elif not -(1 << (8 * nb - 1)) <= v < (1 << 8 * nb):
            r = call(u.pack, v, bits, e)
            ctx.ev("out_of_range")
            ctx.check(isinstance(r, Err), "pack-truncates", lambda: {"value": v, "bits": bits, "endian": e, "got": repr(r)})
        # without a width: the fewest bytes that hold it
        for e in (e, "little"):
            r = call(u.pack, v, None, e) if rng.random() < 0.7 else call(lambda: u.pack(v, endian=e))
            ctx.ev("unsized")
            ok = isinstance(r, bytes) and r == encode(v, len(r), order(e)) and call(u.unpack, r, None, e, v < 0) == v
            ok = ok and len(r) == ((~v).bit_length() + 1 + 7 if v < 0 else v.bit_length() + 7) // 8
            if not ctx.check(ok, "pack-unsized", lambda: {"value": v, "endian": e, "got": repr(r)}):
                return
        if v >= 0 and v >> (8 * nb):
            ctx.check(isinstance(call(u.swap, v, bits), Err), "swap-truncates", lambda: {"value": v, "bits": bits})
    # defaults and wrong lengths
    for _ in range(10):
        b = rng.randbytes(rng.randrange(12))
        m = sum(x << (8 * k) for k, x in enumerate(b))
        ctx.check(call(u.unpack, b) == m and call(lambda: u.unpack(b, sign=False, endian=">")) == sum(x << (8 * k) for k, x in enumerate(reversed(b))), "unpack-unsized", lambda: {"bytes": b.hex()})
        w = rng.choice((8, 16, 32, 64, 24, bits))
        if len(b) != (w + 7) // 8:
            ctx.ev("wrong_length")
            ctx.check(isinstance(call(u.unpack, b, w), Err), "unpack-length", lambda: {"bytes": b.hex(), "bits": w})
            q = {8: u.u8, 16: u.u16, 32: u.u32, 64: u.u64}.get(w)
            if q:
                ctx.check(isinstance(call(q, b), Err), "unpack-length", lambda: {"bytes": b.hex(), "helper": w})


QUICK_FACTOR = 3
WORKLOADS = {
    "palettes": (w_palettes, n_exhaustive, n_exhaustive),
    "lengths": (w_lengths, lambda: 81, lambda: 81),
    "names": (w_names, n_names, n_names),
    "small": (w_small, lambda: 16, lambda: 16),
    "ints": (w_ints, 900, 20000),
    "hexdump": (w_hexdump, 2400, 100000),
    "dumpstruct": (w_dumpstruct, 4000, 120000),
}
EXHAUSTIVE = "all 8 and 16 bit integers; all data lengths up to 80; all palettes of up to three entries with sizes 0, 1, 2, 15, 16, 17 on nine lengths"
