"""C05 scalar codecs: every built-in scalar against independent encoders, and run-time endian switches."""
from __future__ import annotations

import math
import random

from . import gen, lib
from . import model as M
from .boot import cstruct
from .common import (MODES, BytesIO, Err, call, canon, count_features, has_union, load, make, masked, mode_name, program, witness)

PID = "C05"
ANCHORS = ["types/int.py", "types/packed.py", "types/leb128.py", "types/char.py", "types/wchar.py", "utils.py"]
RULE = ("A case is (type or alias, byte order, block of values): each value is encoded and decoded by an independent codec and "
        "pushed through every read and write path of the type (bytes, stream, array, null-terminated array, structure field in "
        "both readers, pointer target, enum, bit-field container); or a generated program driven through a history of endian "
        "switches.  Non-trivial: at least one value's bytes were compared; distinct by type, order, path and block.")
ASSUMPTIONS = ["IEEE-754 decoding by exact rational arithmetic, encoding checked by round trip and by nearest-even comparison",
               "the native codes @ and = are this machine's byte order", "NaN payloads, lone surrogates and non-minimal LEB128 are outside the domain"]
REQUIRED = ["exhaustive_values", "edge_values", "leb_values", "wchar_strings", "float_roundings", "switches", "switch_reads",
            "switch_writes", "switch_compiled", "out_of_range", "aliases", "foreign_values", "foreign_fields"]

ENDS = "<>!=@"


ORDER = {e: M.Cfg(e).order for e in ENDS}


def order(e):
    return ORDER[e]


def val_of_float_bits(bits, size):
    """Exact value of an IEEE-754 pattern (None for NaN)."""
    ebits, mbits = {2: (5, 10), 4: (8, 23), 8: (11, 52)}[size]
    sign = -1.0 if bits >> (ebits + mbits) else 1.0
    ex = (bits >> mbits) & ((1 << ebits) - 1)
    man = bits & ((1 << mbits) - 1)
    bias = (1 << (ebits - 1)) - 1
    if ex == (1 << ebits) - 1:
        return None if man else sign * math.inf
    if ex == 0:
        return sign * math.ldexp(man, 1 - bias - mbits)
    return sign * math.ldexp(man | (1 << mbits), ex - bias - mbits)


def same(a, b):
    """Equality that separates 0.0 from -0.0 and 1 from 1.0."""
    if isinstance(b, float):
        return isinstance(a, float) and a == b and math.copysign(1, a) == math.copysign(1, b)
    return a == b


def oracle(t, e, bits):
    """(encoded bytes, value) of the bit pattern, or None outside the domain."""
    raw = M.enc_int(bits, t.size, order(e), False)
    if t.kind == "int":
        return raw, M.dec_int(raw, order(e), t.signed)
    if t.kind == "float":
        v = val_of_float_bits(bits, t.size)
        return None if v is None else (raw, v)
    if t.kind == "char":
        return raw, raw
    v = M.dec_wstr(raw, order(e))
    return None if v is None else (raw, v)


class Paths:
    """All the ways one value of a type can be read and written in one cstruct instance."""

    def __init__(self, ctx, cs, name, t):
        self.ctx, self.cs, self.name, self.t = ctx, cs, name, t
        self.T = cs.resolve(name)
        self.S = {}
        for comp in MODES:
            cs.load(f"struct P{int(comp)} {{ uint8 a; {name} b; {name} c; uint8 d; }};", compiled=comp)
            self.S[comp] = cs.resolve(f"P{int(comp)}")

    def det(self, e, raw, v, how, got):
        return {"type": self.name, "endian": e, "bytes": raw.hex(), "value": repr(v), "path": how, "got": repr(got)}

    def one(self, e, raw, v, deep):
        ctx, T, t = self.ctx, self.T, self.t
        r = call(T, raw)
        ctx.check(same(r, v), "decode", lambda: self.det(e, raw, v, "T(bytes)", r))
        w = call(T.dumps, v)
        ctx.check(w == raw, "encode", lambda: self.det(e, raw, v, "T.dumps(value)", w))
        if not deep:
            return
        s = BytesIO(b"\x5a" + raw + b"\xa5")
        s.read(1)
        r = call(T.read, s)
        ctx.check(same(r, v) and s.tell() == 1 + len(raw), "decode-stream", lambda: self.det(e, raw, v, "T.read(stream)", (r, s.tell())))
        w = call(lambda: r.dumps())
        ctx.check(w == raw, "encode-instance", lambda: self.det(e, raw, v, "value.dumps()", w))
        s = BytesIO()
        n = call(T.write, s, v)
        ctx.check(s.getvalue() == raw and n == len(raw), "write", lambda: self.det(e, raw, v, "T.write", (s.getvalue(), n)))
        r = call(T[1], raw)
        one = v if t.kind in ("char", "wchar") else [v]
        ctx.check(not isinstance(r, Err) and (r == one if t.kind in ("char", "wchar") else len(r) == 1 and same(r[0], v)),
                  "decode-array", lambda: self.det(e, raw, v, "T[1]", r))
        if not isinstance(r, Err):
            w = call(r.dumps)
            ctx.check(w == raw, "encode-array", lambda: self.det(e, raw, v, "T[1].dumps", w))
        for comp, S in self.S.items():
            img = b"\x11" + raw + raw + b"\x22"
            o = call(S, img)
            if not ctx.check(not isinstance(o, Err), "decode-struct", lambda: self.det(e, raw, v, mode_name(comp), o)):
                continue
            ctx.check(same(o.b, v) and same(o.c, v) and o.a == 0x11 and o.d == 0x22, "decode-struct",
                      lambda: self.det(e, raw, v, mode_name(comp), o))
            w = call(o.dumps)
            ctx.check(w == img, "encode-struct", lambda: self.det(e, raw, v, mode_name(comp), w))
            w = call(lambda: S(a=0x11, b=v, c=v, d=0x22).dumps())
            ctx.check(w == img, "encode-struct", lambda: self.det(e, raw, v, mode_name(comp) + " from values", w))

    def bulk(self, e, pairs):
        """The same values as one array, through the bulk readers and writers."""
        ctx, T, t = self.ctx, self.T, self.t
        img = b"".join(raw for raw, _ in pairs)
        vals = [v for _, v in pairs]
        if t.kind == "char":
            vals = b"".join(vals)
        elif t.kind == "wchar":
            vals = M.dec_wstr(img, order(e))
            if vals is None:
                return
        A = T[len(pairs)]
        r = call(A, img)
        ok = not isinstance(r, Err) and (r == vals if t.kind in ("char", "wchar") else
                                         len(r) == len(vals) and all(same(x, y) for x, y in zip(r, vals)))
        ctx.check(ok, "decode-bulk", lambda: self.det(e, img[:64], vals[:16], f"T[{len(pairs)}]", repr(r)[:300]))
        w = call(A.dumps, vals)
        ctx.check(w == img, "encode-bulk", lambda: self.det(e, img[:64], vals[:16], f"T[{len(pairs)}].dumps", repr(w)[:300]))


# ---------------------------------------------------------------------------------------- exhaustive small widths

SMALL = ["int8", "uint8", "char", "int16", "uint16", "float16", "wchar"]
CHUNK = 2048


def small_cases():
    out = []
    for n in SMALL:
        total = 1 << (8 * M.SC[n].size)
        for e in "<>":
            for lo in range(0, total, CHUNK):
                out.append((n, e, lo, min(total, lo + CHUNK)))
    return out


def w_small(ctx, i):
    n, e, lo, hi = small_cases()[i]
    t = M.SC[n]
    cs = cstruct(endian=e)
    p = Paths(ctx, cs, n, t)
    pairs = []
    for bits in range(lo, hi):
        x = oracle(t, e, bits)
        if x is None:
            continue
        pairs.append(x)
        p.one(e, *x, deep=bits % 64 == 5 or bits in (lo, hi - 1))
        ctx.ev("exhaustive_values")
    if pairs:
        p.bulk(e, pairs)
        k = min(len(pairs), 100)
        p.bulk(e, pairs[:k])
        if t.kind in ("int", "float") or t.kind in ("char", "wchar"):
            nz = [x for x in pairs[:200] if x[0] != bytes(t.size) and x[1] != 0]
            null_terminated(ctx, cs, n, t, e, nz)
    ctx.key("small", n, e, lo)
    ctx.sample({"type": n, "endian": e, "patterns": [lo, hi], "in_domain": len(pairs)})


def null_terminated(ctx, cs, n, t, e, pairs):
    T = cs.resolve(n)
    A = T[None]
    img = b"".join(raw for raw, _ in pairs)
    vals = [v for _, v in pairs]
    if t.kind == "char":
        vals = b"".join(vals)
    elif t.kind == "wchar":
        vals = M.dec_wstr(img, order(e))
        if vals is None:
            return
    s = BytesIO(img + bytes(t.size) + b"\x99")
    r = call(A, s)
    ok = not isinstance(r, Err) and (r == vals if t.kind in ("char", "wchar") else
                                     len(r) == len(vals) and all(same(x, y) for x, y in zip(r, vals)))
    ctx.check(ok and s.tell() == len(img) + t.size, "decode-null-terminated",
              {"type": n, "endian": e, "bytes": img[:60], "got": repr(r)[:300]})
    if ok:
        ctx.check(call(r.dumps) == img + bytes(t.size), "encode-null-terminated", {"type": n, "endian": e, "bytes": img[:60]})


# ---------------------------------------------------------------------------------------- edges of every width

FIXED = [n for n, t in M.SC.items() if t.kind in ("int", "float", "char", "wchar")]
NAMES = FIXED + [a for a, n in M.ALIASES.items()]


def patterns(rng, nb, extra):
    out = {0, 1, (1 << nb) - 1}
    for k in range(nb):
        for d in (-1, 0, 1):
            out.add(((1 << k) + d) % (1 << nb))
            out.add((-(1 << k) + d) % (1 << nb))
    for k in range(nb // 8):
        out.add(0xFF << (8 * k))
        out.add(0x80 << (8 * k))
        out.add(0x7F << (8 * k))
    out.add(int.from_bytes(bytes(range(1, nb // 8 + 1)), "big"))
    out.add(int.from_bytes(bytes(range(0xF1, 0xF1 + nb // 8 % 15)) or b"\1", "big") % (1 << nb))
    for _ in range(extra):
        out.add(rng.getrandbits(nb))
    return sorted(out)


def w_edges(ctx, i):
    n = NAMES[i % len(NAMES)]
    t = M.SC[M.ALIASES.get(n, n)]
    if n in M.ALIASES:
        ctx.ev("aliases")
    for e in ENDS:
        cs = cstruct(endian=e)
        p = Paths(ctx, cs, n, t)
        pairs = []
        for k, bits in enumerate(patterns(ctx.rng, t.size * 8, 40 if i < len(NAMES) else 150)):
            x = oracle(t, e, bits)
            if x is None:
                continue
            pairs.append(x)
            p.one(e, *x, deep=k % 3 == 0)
            ctx.ev("edge_values")
        ctx.rng.shuffle(pairs)
        if t.kind != "wchar":
            p.bulk(e, pairs)
        null_terminated(ctx, cs, n, t, e, [x for x in pairs if x[1] != 0 and x[0] != bytes(t.size)])
        ctx.key("edges", n, e, i // len(NAMES))
        if t.kind == "int":
            lo, hi = (-(1 << (8 * t.size - 1)), (1 << (8 * t.size - 1)) - 1) if t.signed else (0, (1 << (8 * t.size)) - 1)
            for v in (lo - 1, hi + 1, hi + 2, 2 * hi + 1, -(hi + 2), 1 << (8 * t.size), (1 << (8 * t.size)) + 5):
                if lo <= v <= hi:
                    continue
                for how, fn in (("T.dumps", lambda: p.T.dumps(v)), ("T[1].dumps", lambda: p.T[1].dumps([v])),
                                ("struct", lambda: p.S[True](b=v).dumps())):
                    r = call(fn)
                    ctx.ev("out_of_range")
                    ctx.check(isinstance(r, Err), "encoded-unrepresentable",
                              lambda: {"type": n, "endian": e, "value": str(v), "path": how, "got": repr(r)})
    ctx.sample({"type": n, "patterns": len(pairs)})


# ---------------------------------------------------------------------------------------- floats: rounding on encode


def nearest(v, size):
    """Bit pattern of the nearest IEEE value (ties to even) by exact comparison; None when it overflows."""
    from fractions import Fraction

    ebits, mbits = {2: (5, 10), 4: (8, 23), 8: (11, 52)}[size]
    bias = (1 << (ebits - 1)) - 1
    sign = 1 if math.copysign(1, v) < 0 else 0
    if math.isinf(v):
        return (sign << (ebits + mbits)) | (((1 << ebits) - 1) << mbits)
    x = abs(Fraction(v))
    if x == 0:
        return sign << (ebits + mbits)
    ex = max(math.frexp(abs(v))[1] - 1, 1 - bias)
    unit = Fraction(2) ** (ex - mbits)
    q = x / unit
    n = q.numerator // q.denominator
    rem = q - n
    if rem > Fraction(1, 2) or (rem == Fraction(1, 2) and n & 1):
        n += 1
    if n >> (mbits + 1):
        n >>= 1
        ex += 1
    if ex > bias:
        return None
    e = 0 if n < (1 << mbits) else ex + bias
    return (sign << (ebits + mbits)) | (e << mbits) | (n & ((1 << mbits) - 1))


def w_floats(ctx, i):
    rng = ctx.rng
    n = ("float16", "float", "double")[i % 3]
    t = M.SC[n]
    for e in "<>":
        cs = cstruct(endian=e)
        T = cs.resolve(n)
        for _ in range(150):
            k = rng.randrange(5)
            if k == 0:
                v = math.ldexp(rng.random() - 0.5, rng.randint(-30, 20))
            elif k == 1:
                bits = rng.getrandbits(8 * t.size)
                b = val_of_float_bits(bits, t.size)
                v = b if b is not None and not math.isinf(b) else 0.5
                v = v + math.ldexp(v, -rng.randint(9, 30))
            elif k == 2:
                v = float(rng.randint(-70000, 70000)) + rng.choice((0, 0.5, 0.25))
            elif k == 3:
                v = rng.choice((0.0, -0.0, math.inf, -math.inf, 5e-324, 2.0 ** -24, 2.0 ** -25, 65504.0, 65519.99, 1.5 * 2.0 ** -149))
            else:
                v = rng.uniform(-1e6, 1e6)
            want = nearest(v, t.size)
            r = call(T.dumps, v)
            ctx.ev("float_roundings")
            if want is None:
                ctx.check(isinstance(r, Err), "float-overflow", lambda: {"type": n, "value": repr(v), "got": repr(r)})
                continue
            raw = M.enc_int(want, t.size, order(e), False)
            ctx.check(r == raw, "float-encode", lambda: {"type": n, "endian": e, "value": repr(v), "expected": raw.hex(),
                                                        "got": repr(r)})
    ctx.key("floats", n, i)


# ---------------------------------------------------------------------------------------- LEB128


def leb_one(ctx, T, S, name, signed, v, e):
    raw = M.enc_leb(v, signed)
    det = lambda **kw: {"type": name, "endian": e, "value": str(v), "bytes": raw.hex(), **kw}  # noqa: E731
    r = call(T, raw)
    ctx.check(r == v, "leb-decode", lambda: det(got=repr(r)))
    w = call(T.dumps, v)
    ctx.check(w == raw, "leb-encode", lambda: det(got=repr(w)))
    s = BytesIO(b"\xff" + raw + b"\xff\xff")
    s.read(1)
    r = call(T.read, s)
    ctx.check(r == v and s.tell() == 1 + len(raw), "leb-stream", lambda: det(got=repr(r), tell=s.tell()))
    for k in range(1, len(raw)) if len(raw) < 40 else (1, len(raw) // 2, len(raw) - 1):
        r = call(T, raw[:k])
        ctx.check(isinstance(r, Err) and r.name == "EOFError", "leb-short", lambda: det(cut=k, got=repr(r)))
    for comp, X in S.items():
        img = b"\x07" + raw + raw + b"\x09"
        o = call(X, img)
        ctx.check(not isinstance(o, Err) and (o.a, o.b, o.c, o.d) == (7, v, v, 9), "leb-struct", lambda: det(got=repr(o)))
        w = call(o.dumps) if not isinstance(o, Err) else o
        ctx.check(w == img, "leb-struct-dump", lambda: det(got=repr(w)))
    ctx.ev("leb_values")


def w_leb(ctx, i):
    rng = ctx.rng
    for name, signed in (("uleb128", False), ("ileb128", True)):
        e = ENDS[i % len(ENDS)]
        cs = cstruct(endian=e)
        T = cs.resolve(name)
        S = {}
        for comp in MODES:
            cs.load(f"struct L{int(comp)} {{ uint8 a; {name} b; {name} c; uint8 d; }};", compiled=comp)
            S[comp] = cs.resolve(f"L{int(comp)}")
        vals = set()
        if i < 40:
            # all values around every group boundary
            for k in range(7 * (i % 20), 7 * (i % 20) + 8):
                for d in range(-3, 4):
                    vals |= {(1 << k) + d, -(1 << k) + d, (1 << k) // 2 + d, -((1 << k) // 2) + d}
            step = 16500 // 40
            vals |= set(range(i * step, (i + 1) * step)) | {-x for x in range(i * step, (i + 1) * step)}
        else:
            for _ in range(200):
                v = rng.getrandbits(rng.randint(1, 200))
                vals.add(v if rng.random() < 0.5 else -v)
            for _ in range(6):
                # numbers of thousands of bits
                k = rng.choice((511, 512, 1023, 1024, 2047, 2048, 4096, 4097, 8192, 14000)) + rng.randrange(-8, 9)
                v = rng.choice(((1 << k) + rng.randrange(-2, 3), rng.getrandbits(k)))
                vals.add(v if rng.random() < 0.5 else -v)
                ctx.ev("leb_thousands_of_bits")
        for v in sorted(vals):
            if v < 0 and not signed:
                r = call(T.dumps, v)
                ctx.ev("out_of_range")
                ctx.check(isinstance(r, Err), "leb-negative-unsigned", lambda: {"value": str(v), "got": repr(r)})
                continue
            leb_one(ctx, T, S, name, signed, v, e)
        some = [v for v in rng.sample(sorted(vals), min(30, len(vals))) if v and (signed or v > 0)]
        img = b"".join(M.enc_leb(v, signed) for v in some)
        r = call(T[len(some)], img)
        ctx.check(not isinstance(r, Err) and list(r) == some, "leb-array", {"values": str(some)[:300], "got": repr(r)[:300]})
        ctx.check(call(T[len(some)].dumps, some) == img, "leb-array-dump", {"values": str(some)[:300]})
        r = call(T[None], img + b"\0\x01")
        ctx.check(not isinstance(r, Err) and list(r) == some, "leb-null-array", {"values": str(some)[:300], "got": repr(r)[:300]})
    ctx.key("leb", i, e)


# ---------------------------------------------------------------------------------------- wide strings


def rand_str(rng, n, nonzero=False):
    out = []
    while len(out) < n:
        k = rng.randrange(5)
        c = (rng.randrange(0x80), rng.randrange(0x80, 0x800), rng.randrange(0x800, 0x10000), rng.randrange(0x10000, 0x110000),
             rng.choice((0, 0xFEFF, 0xFFFE, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF, 0x1F600, 0x100, 0xFF)))[k]
        if 0xD800 <= c < 0xE000 or (nonzero and c == 0):
            continue
        out.append(chr(c))
    return "".join(out)


def w_wchar(ctx, i):
    rng = ctx.rng
    for e in ENDS:
        cs = cstruct(endian=e)
        name = rng.choice(("wchar", "wchar_t", "WCHAR"))
        T = cs.resolve(name)
        for _ in range(12):
            s = rand_str(rng, rng.randrange(0, 9), nonzero=rng.random() < 0.5)
            raw = M.enc_wstr(s, order(e))
            ctx.check(raw == s.encode("utf-16-le" if order(e) == "little" else "utf-16-be"), "oracle-self-check", {"s": ascii(s)})
            units = len(raw) // 2
            det = lambda **kw: {"string": ascii(s), "endian": e, "bytes": raw.hex(), **kw}  # noqa: E731
            ctx.ev("wchar_strings")
            r = call(T[units], raw + b"\x41\x00")
            ctx.check(r == s, "wchar-array", lambda: det(got=repr(r)))
            w = call(T[units].dumps, s)
            ctx.check(w == raw, "wchar-array-dump", lambda: det(got=repr(w)))
            if "\0" not in s:
                st = BytesIO(raw + b"\0\0" + b"\x42\x00")
                r = call(T[None], st)
                ctx.check(r == s and st.tell() == len(raw) + 2, "wchar-null", lambda: det(got=repr(r), tell=st.tell()))
                w = call(T[None].dumps, s)
                ctx.check(w == raw + b"\0\0", "wchar-null-dump", lambda: det(got=repr(w)))
            for comp in MODES:
                r = call(cs.load, f"struct W{ctx.events['wchar_strings']}_{int(comp)} {{ uint8 n; {name} s[n]; uint8 e; {name} z[]; {name} f[{units}]; }};",
                         compiled=comp)
                if isinstance(r, Err):
                    ctx.fail("wchar-struct-load", det(raised=repr(r)))
                    continue
                W = cs.resolve(f"W{ctx.events['wchar_strings']}_{int(comp)}")
                z = s.replace("\0", "")
                img = bytes([units]) + raw + b"\x7e" + M.enc_wstr(z, order(e)) + b"\0\0" + raw
                o = call(W, img)
                ctx.check(not isinstance(o, Err) and (o.s, o.e, o.z, o.f) == (s, 0x7E, z, s), "wchar-struct",
                          lambda: det(got=repr(o), mode=mode_name(comp)))
                w = call(o.dumps) if not isinstance(o, Err) else o
                ctx.check(w == img, "wchar-struct-dump", lambda: det(got=repr(w), mode=mode_name(comp)))
    ctx.key("wchar", i)


# ---------------------------------------------------------------------------------------- endian switches


def w_switch(ctx, i):
    """A loaded program driven through a history of endian changes: the current order governs every read and write."""
    rng = ctx.rng
    prof = ({}, {"bits": 0.5}, {"align": True}, {"array": 0.6, "leb": 0.1}, {"enum": 0.35, "ptr": 0.25},
            {"nested": 0.5, "depth": 3, "union": 0.3})[i % 6]
    root, cfg = program(ctx, prof) if i % 16 != 15 else gen.big_program(rng)
    loaded = load(ctx, root, cfg)
    if loaded is None:
        return
    count_features(ctx, root)
    union = has_union(root)
    objs = {}
    hist = cfg.endian
    for step in range(rng.randint(2, 6)):
        e = rng.choice([x for x in ENDS if x != hist[-1]] + [hist[-1]])
        cur = M.Cfg(e, cfg.ptr, cfg.consts)
        cur.big = cfg.big
        hist += e
        ctx.ev("switches")
        for comp, (cs, T) in loaded.items():
            cs.endian = e
        d = gen.gen_data(rng, root, cur)
        if d is None:
            continue
        data, v, end, p = d
        for comp, (cs, T) in loaded.items():
            det = lambda **kw: witness(root, cfg, comp, data, history=hist, **kw)  # noqa: E731
            s = BytesIO(data)
            o = call(T, s)
            if not ctx.check(not isinstance(o, Err), "switch-parse", lambda: det(raised=repr(o))):
                continue
            ctx.ev("switch_reads")
            if comp and getattr(T, "__compiled__", False):
                ctx.ev("switch_compiled")
            got = canon(root, o)
            ctx.check(got == v and s.tell() == end, "switch-value", lambda: det(expected=repr(v), got=repr(got), tell=s.tell()))
            w = call(o.dumps)
            exp = masked(data, end, bytes(p.mask[:end]) + bytes(max(0, end - len(p.mask))))
            ctx.ev("switch_writes")
            ctx.check(w == exp, "switch-dump", lambda: det(expected=exp.hex(), got=repr(w)))
            # a value read before the switch is written in the order in force now
            if comp in objs and not union:
                old, ov = objs[comp]
                r = call(M.encode, root, ov, cur)
                if not isinstance(r, Err):
                    w = call(old.dumps)
                    ctx.ev("switch_writes")
                    ctx.check(w == r[0], "switch-dump-old-value", lambda: det(value=repr(ov), expected=r[0].hex(), got=repr(w)))
            objs[comp] = (o, v)
    ctx.key("switch", M.program_text(root, cfg.consts), hist)
    ctx.sample({**witness(root, cfg), "history": hist})


def w_switch_scalars(ctx, i):
    """Types created before the switch: scalars, arrays, pointers, enums, typedefs."""
    rng = ctx.rng
    n = FIXED[i % len(FIXED)]
    t = M.SC[n]
    start = rng.choice(ENDS)
    cs = cstruct(endian=start)
    T = cs.resolve(n)
    cs.load(f"typedef {n} tdef_t; typedef {n} tarr_t[3];")
    kinds = {"T": T, "typedef": cs.resolve("tdef_t")}
    A, A2, Z, TA = T[3], T[2][2], T[None], cs.resolve("tarr_t")
    if t.kind == "int":
        cs.load(f"enum En_t : {n} {{ A = 1, B }}; flag Fl_t : {n} {{ X = 1, Y }};"
                f"struct Ptr_t {{ {n} *p; }};")
        for comp in MODES:
            cs.load(f"struct B{int(comp)} {{ {n} lo : 3; {n} hi : {t.size * 8 - 3}; }};", compiled=comp)
    hist = start
    for step in range(8):
        e = rng.choice(ENDS)
        cs.endian = e
        hist += e
        ctx.ev("switches")
        bits = rng.choice(patterns(rng, t.size * 8, 3))
        x = oracle(t, e, bits)
        if x is None:
            continue
        raw, v = x
        det = lambda **kw: {"type": n, "history": hist, "bytes": raw.hex(), "value": repr(v), **kw}  # noqa: E731
        for k, X in kinds.items():
            r = call(X, raw)
            ctx.check(same(r, v), "switch-scalar", lambda: det(how=k, got=repr(r)))
            w = call(X.dumps, v)
            ctx.check(w == raw, "switch-scalar-dump", lambda: det(how=k, got=repr(w)))
        ctx.ev("switch_reads", 2)
        ctx.ev("switch_writes", 2)
        txt = t.kind in ("char", "wchar")
        for k, X in (("array", A), ("typedef array", TA)):
            r = call(X, raw * 3)
            ctx.check(r == (v * 3 if txt else [v] * 3), "switch-array", lambda: det(how=k, got=repr(r)))
            w = call(X.dumps, v * 3 if txt else [v] * 3)
            ctx.check(w == raw * 3, "switch-array-dump", lambda: det(how=k, got=repr(w)))
        r = call(A2, raw * 4)
        ctx.check(r == ([v * 2] * 2 if txt else [[v] * 2] * 2), "switch-array", lambda: det(how="nested", got=repr(r)))
        if v != 0 and raw != bytes(t.size):
            r = call(Z, raw * 2 + bytes(t.size))
            ctx.check(r == (v * 2 if txt else [v] * 2), "switch-null", lambda: det(got=repr(r)))
        if t.kind == "int":
            E, F = cs.resolve("En_t"), cs.resolve("Fl_t")
            r = call(E, raw)
            ctx.check(not isinstance(r, Err) and r.value == v and call(r.dumps) == raw, "switch-enum", lambda: det(got=repr(r)))
            r = call(F, raw)
            ctx.check(not isinstance(r, Err) and int(r) == v and call(F.dumps, r) == raw, "switch-flag", lambda: det(got=repr(r)))
            paddr = M.enc_int(8, 8, order(e), False)
            o = call(cs.resolve("Ptr_t"), paddr + raw)
            r = call(o.p.dereference) if not isinstance(o, Err) else o
            ctx.check(r == v, "switch-pointer", lambda: det(got=repr(r)))
            u = M.dec_int(raw, order(e), False)
            nb = t.size * 8
            lo, hi = (u & 7, u >> 3) if order(e) == "little" else (u >> (nb - 3), u & ((1 << (nb - 3)) - 1))
            for comp in MODES:
                o = call(cs.resolve(f"B{int(comp)}"), raw)
                ctx.check(not isinstance(o, Err) and (o.lo, o.hi) == (lo, hi) and call(o.dumps) == raw, "switch-bits",
                          lambda: det(mode=mode_name(comp), expected=(lo, hi), got=repr(o)))
    ctx.key("switch-scalar", n, hist)


def w_foreign(ctx, i):
    """Values read by one cstruct object in the fields of another's structures: written in the order of the one that writes."""
    rng = ctx.rng
    prof = ({"union": 0.0}, {"union": 0.0, "ptr": 0.3}, {"union": 0.0, "array": 0.6, "enum": 0.3}, {"union": 0.0, "bits": 0.4})[i % 4]
    root, cfg = program(ctx, prof)
    if has_union(root):
        return
    here = load(ctx, root, cfg)
    cur = M.Cfg(rng.choice("<>!=@"), cfg.ptr, cfg.consts)
    there = load(ctx, root, cur)
    if here is None or there is None:
        return
    d = gen.gen_data(rng, root, cfg)
    if d is None:
        return
    data, v, end, p = d
    comp = rng.random() < 0.5
    o = call(here[comp][1], data)
    late = rng.random() < 0.4
    if late:
        # the order of the reading object changes before the value is written
        here[comp][0].endian = cfg.endian = rng.choice("<>!=@")
    r = call(M.encode, root, v, cur)
    if isinstance(o, Err) or isinstance(r, Err):
        return
    T = there[rng.random() < 0.5][1]
    names = [f._name for f in T.__fields__]
    det = lambda **kw: witness(root, cur, comp, data, read_in=cfg.endian, late=late, **kw)  # noqa: E731
    ctx.ev("foreign_values")
    if len(set(names)) == len(names):
        w = call(lambda: T(**{n: getattr(o, n) for n in names}).dumps())
        ctx.check(w == r[0], "foreign-keywords", lambda: det(value=repr(v), expected=r[0].hex(), got=repr(w)))
        n = call(T)
        if not isinstance(n, Err):
            for x in names:
                setattr(n, x, getattr(o, x))
            w = call(n.dumps)
            ctx.check(w == r[0], "foreign-assigned", lambda: det(value=repr(v), expected=r[0].hex(), got=repr(w)))
    w = call(T.dumps, o)
    ctx.check(w == r[0], "foreign-dump", lambda: det(value=repr(v), expected=r[0].hex(), got=repr(w)))
    # one field at a time, by its type
    for f, F in zip(root.fields, T.__fields__):
        if f.bits or f.name is None:
            continue
        x = getattr(o, F._name)
        r = call(M.encode, f.t, v[f.name], cur)
        if not isinstance(r, Err):
            ctx.ev("foreign_fields")
            w = call(F.type.dumps, x)
            ctx.check(w == r[0], "foreign-field", lambda: det(field=f.name, expected=r[0].hex(), got=repr(w)))
    ctx.key("foreign", M.program_text(root, cfg.consts), cur.endian, cfg.endian, data)


QUICK_FACTOR = 3
WORKLOADS = {
    "foreign": (w_foreign, 300, 6000),
    "small": (w_small, lambda: len(small_cases()), lambda: len(small_cases())),
    "edges": (w_edges, len(NAMES), 20 * len(NAMES)),
    "floats": (w_floats, 90, 3000),
    "leb": (w_leb, 60, 600),
    "wchar": (w_wchar, 60, 1500),
    "switch": (w_switch, 700, 12000),
    "switch_scalars": (w_switch_scalars, 5 * len(FIXED), 60 * len(FIXED)),
}
EXHAUSTIVE = "workload small: all bit patterns of int8, uint8, char, int16, uint16, float16 and wchar in both byte orders"
