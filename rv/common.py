"""Shared by the monitors: build values, compare observations, describe witnesses."""
from __future__ import annotations

import io
import random
import struct

from . import gen, lib
from . import model as M
from .lib import BytesIO, Err, call

MODES = (False, True)


def mode_name(comp):
    return "compiled" if comp else "interpreted"


def program(ctx, prof=None, consts=0.3, root_kw=None, cfg=None):
    g = gen.Gen(ctx.rng, gen.Profile(**(prof or {})), cfg)
    if ctx.rng.random() < consts:
        g.cfg.consts = {"KA": ctx.rng.randrange(4), "KB": 2}
    return g.program(**(root_kw or {})), g.cfg


def dynunion_program(ctx):
    """(root, cfg) of a packed definition with a union of data-dependent size, or None."""
    rng = ctx.rng
    for _ in range(12):
        cfg = M.Cfg(rng.choice("<>!=@"), M.SC[rng.choice(gen.PTRS)])
        cfg.dynunion = True
        root, cfg = program(ctx, {"union": 0.7, "nested": 0.6, "dynunion": 0.8, "dyn": 0.7, "array": 0.5, "leb": 0.2, "bits": 0.15, "depth": 2, "align": False,
                                  "mixed_align": 0.0, "anon": 0.3, "fields": (1, 5)}, cfg=cfg)
        found = []
        M.walk(root, lambda x, d: found.append(1) if isinstance(x, M.St) and x.union and M.sizeof(x, cfg) is None else None)
        if found:
            return root, cfg
    return None


def load(ctx, root, cfg, modes=MODES):
    """{compiled: (cs, T)}; a definition that does not load is a violation."""
    out = {}
    for comp in modes:
        r = call(lib.build, root, cfg, comp)
        if isinstance(r, Err):
            ctx.fail("definition-rejected", {**lib.describe(root, cfg), "mode": mode_name(comp), "raised": repr(r)})
            return None
        out[comp] = r
    return out


def ends_with_eof(root):
    return bool(root.fields) and any(isinstance(f.t, M.Ar) and f.t.form == "eof" for f in root.fields)


def masked(data, end, mask):
    """Consumed prefix with the bits that belong to no field cleared."""
    out = bytearray(end)
    for i in range(min(end, len(mask), len(data))):
        out[i] = data[i] & mask[i]
    return bytes(out)


def canon(t, v):
    return call(M.canon, t, v)


def count_features(ctx, root):
    for f in M.features(root):
        ctx.ev("feature:" + f)


def float_of(v, size):
    return struct.unpack(">" + M.FLOATFMT[size], v[1])[0]


def make(T, t, v):
    """Build a value of library type T from a canonical value by construction and assignment."""
    if isinstance(t, M.Sc):
        if t.kind == "float":
            return float_of(v, t.size)
        return v
    if isinstance(t, M.En):
        return T(v)
    if isinstance(t, M.Pt):
        return v
    if isinstance(t, M.Ar):
        if isinstance(t.elem, M.Sc) and t.elem.kind in ("char", "wchar"):
            return v
        return [make(T.type, t.elem, x) for x in v]
    if t.union:
        obj = T()
        for f, F in zip(t.fields, T.__fields__):
            assign(obj, f, F, v)
        return obj
    obj = T(**{f.name: make_field(f, F, v) for f, F in zip(t.fields, T.__fields__)
               if f.name is not None and not (isinstance(f.t, M.Sc) and f.t.kind == "void")})
    for f, F in zip(t.fields, T.__fields__):
        if f.name is None:
            assign(obj, f, F, v)
    return obj


def make_field(f, F, v):
    x = v[f.name]
    if f.bits:
        return F.type(x) if isinstance(f.t, M.En) else x
    return make(F.type, f.t, x)


def assign(obj, f, F, v):
    """Assign the field (or, for a folded anonymous member, each of its fields) from canonical value v of the parent."""
    if f.name is None:
        for g, G in zip(f.t.fields, F.type.__fields__):
            assign(obj, g, G, v)
        return
    if isinstance(f.t, M.Sc) and f.t.kind == "void":
        return
    setattr(obj, f.name, make_field(f, F, v))


def int_fields(t, path=()):
    """Paths of every directly assignable integer-like member: (path, Fd)."""
    out = []
    for f in t.fields:
        if f.name is None:
            out += int_fields(f.t, path)
        else:
            out.append(((*path, f.name), f))
    return out


def has_union(t):
    found = []
    M.walk(t, lambda x, d: found.append(1) if isinstance(x, M.St) and x.union else None)
    return bool(found)


def has_pointer(t):
    found = []
    M.walk(t, lambda x, d: found.append(1) if isinstance(x, M.Pt) else None)
    return bool(found)


def witness(root, cfg, comp=None, data=None, **kw):
    d = lib.describe(root, cfg)
    if comp is not None:
        d["mode"] = mode_name(comp)
    if data is not None:
        d["input"] = bytes(data).hex()
    d.update(kw)
    return d


class Recorder(io.BytesIO):
    """A stream that records every operation done on it."""

    def __init__(self, data, pos=0):
        super().__init__(data)
        super().seek(pos)
        self.log = []

    def read(self, n=-1):
        p = super().tell()
        b = super().read(n)
        self.log.append(("read", p, n, len(b)))
        return b

    def seek(self, pos, whence=0):
        r = super().seek(pos, whence)
        self.log.append(("seek", int(pos), whence))
        return r


def pad_free_unions(t, cfg):
    """No union member has padding bits of its own (an assignment may or may not clear what lies under those)."""
    ok = []

    def see(x, d):
        if isinstance(x, M.St) and x.union:
            for f in x.fields:
                _, m = M.encode(f.t, M.zero(f.t, cfg), cfg)
                if any(b != 0xFF for b in m):
                    ok.append(0)

    M.walk(t, see)
    return not ok
