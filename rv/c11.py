"""C11 unions: a byte-buffer model checked after every step of histories of member assignments."""
from __future__ import annotations

import io

from . import gen, lib
from . import model as M
from .common import (MODES, has_union, Err, call, canon, count_features, load, make, make_field, masked, mode_name, witness)

PID = "C11"
ANCHORS = ["types/structure.py"]
RULE = ("A case is a fixed-size union definition (alone, inside structures, arrays of unions, unions in unions; named and folded anonymous "
        "members) and a history: parse or construct, then up to 14 assignments to members chosen over all paths (direct, through nested "
        "structures, array elements, folded members, bit-fields, references kept from before).  After every step each member and the dump are "
        "compared with a byte buffer.  Non-trivial: at least one assignment judged; distinct by definition, byte order and history.")
ASSUMPTIONS = ["bits in the padding of the assigned member itself may keep their old value or become zero (the library writes whole members)",
               "assigning to elements of scalar arrays in place is outside the statement (the array object cannot know its union)",
               "dynamic unions are outside the statement"]
REQUIRED = ["parsed", "constructed", "defaulted", "steps", "direct", "nested", "through_array", "through_anonymous", "bit_member", "held_reference",
            "whole_structure", "largest_not_first", "aligned_tail", "nested_union", "array_of_unions", "struct_root", "consumption", "big_unions"]


def unit_positions(st, cfg):
    """Per bit-field: (offset of its unit, shift of its low bit in the unit)."""
    _, _, offs = M.layout(st, cfg)
    out = []
    cur = None
    for f, (off, first) in zip(st.fields, offs):
        if not f.bits:
            out.append(None)
            continue
        nb = M.storage(f.t).size * 8
        if st.union:
            cur = [off, 0]
        elif first:
            cur = [off, 0]
        sh = cur[1] if cfg.order == "little" else nb - cur[1] - f.bits
        out.append((cur[0], sh))
        cur[1] += f.bits
    return out


class Buf:
    """The model: bytes, the bits just written and the bits whose new value is not determined."""

    def __init__(self, cfg, data):
        self.cfg = cfg
        self.b = bytearray(data)
        self.w = bytearray(len(data))
        self.tol = bytearray(len(data))

    def begin(self):
        self.w = bytearray(len(self.b))
        self.tol = bytearray(len(self.b))

    def put(self, pos, data, mask):
        for i, (x, m) in enumerate(zip(data, mask)):
            self.b[pos + i] = (self.b[pos + i] & ~m & 255) | (x & m)
            self.w[pos + i] |= m

    def padding(self, f, pos):
        """The member's own padding bits."""
        if f.bits:
            _, m = M.encode(M.St(None, [M.Fd("x", f.t, f.bits)]), {"x": 0}, self.cfg)
        else:
            _, m = M.encode(f.t, M.zero(f.t, self.cfg), self.cfg)
        for i, x in enumerate(m):
            self.tol[pos + i] |= ~x & 255

    def trial(self, root, path, v):
        """Would every member be readable afterwards (no NaN, lone surrogates), whatever happens to the padding?"""
        for clear in (False, True):
            c = Buf(self.cfg, self.b)
            c.write(root, 0, path, v)
            if clear:
                for i in range(len(c.b)):
                    c.b[i] &= ~(c.tol[i] & ~c.w[i]) & 255
            if M.parse(root, bytes(c.b), self.cfg)[2].noncanon:
                return False
        return True

    def write(self, t, pos, path, v):
        cfg = self.cfg
        if not path:
            b, m = M.encode(t, v, cfg)
            self.put(pos, b, m)
            for i, x in enumerate(m):
                self.tol[pos + i] |= ~x & 255
            return
        step, rest = path[0], path[1:]
        if isinstance(t, M.Ar):
            self.write(t.elem, pos + step * M.sizeof(t.elem, cfg), rest, v)
            return
        _, _, offs = M.layout(t, cfg)
        units = unit_positions(t, cfg)
        f = t.fields[step]
        if t.union:
            self.padding(f, pos + offs[step][0])
        if f.bits:
            off, sh = units[step]
            s = M.storage(f.t)
            ones = (1 << f.bits) - 1
            self.put(pos + off, M.enc_int(v << sh, s.size, cfg.order, False), M.enc_int(ones << sh, s.size, cfg.order, False))
            return
        self.write(f.t, pos + offs[step][0], rest, v)


def targets(t, T, path=(), acc=(), flags=frozenset(), depth=0):
    """Every assignable place: (index path, accessor steps, field type, Field, name, flags).

    Accessor steps are attribute names and list indices that lead to the object whose attribute `name` is set.
    """
    out = []
    if isinstance(t, M.Ar):
        for i in range(max(0, t.count)):
            out += targets(t.elem, T.type, (*path, i), (*acc, i), flags | {"through_array"}, depth)
        return out
    if not isinstance(t, M.St):
        return out
    for i, (f, F) in enumerate(zip(t.fields, T.__fields__)):
        p = (*path, i)
        fl = flags | ({"union_member"} if t.union else set())
        if f.name is None:
            out += targets(f.t, F.type, p, acc, fl | {"through_anonymous"}, depth + 1)
            continue
        if isinstance(f.t, M.Sc) and f.t.kind == "void":
            continue
        fl2 = fl | ({"bit_member"} if f.bits else set()) | ({"nested"} if acc else {"direct"})
        if isinstance(f.t, M.St):
            fl2 = fl2 | {"whole_structure"}
        out.append((p, acc, f, F, f.name, fl2))
        if not f.bits:
            e = f.t
            while isinstance(e, M.Ar):
                e = e.elem
            if isinstance(e, M.St):
                out += targets(f.t, F.type, p, (*acc, f.name), fl, depth + 1)
    return out


def follow(obj, acc):
    for s in acc:
        obj = obj[s] if isinstance(s, int) else getattr(obj, s)
    return obj


def value_for(ctx, f, cfg):
    rng = ctx.rng
    if f.bits:
        return rng.choice((0, (1 << f.bits) - 1, rng.getrandbits(f.bits)))
    t = f.t
    d = gen.gen_data(rng, t, cfg)
    return None if d is None else d[1]


def inspect(t, cfg, ev):
    def see(x, d):
        if isinstance(x, M.St) and x.union:
            sizes = [M.sizeof(f.t, cfg) or 0 for f in x.fields]
            if sizes and sizes[0] < max(sizes):
                ev("largest_not_first")
            if x.align and sizes and M.sizeof(x, cfg) > max(sizes):
                ev("aligned_tail")
            for f in x.fields:
                e = f.t
                while isinstance(e, M.Ar):
                    e = e.elem
                if isinstance(e, M.St) and e.union:
                    ev("nested_union")
        if isinstance(x, M.Ar) and isinstance(x.elem, M.St) and x.elem.union:
            ev("array_of_unions")

    M.walk(t, see)


def history(ctx, root, cfg, nsteps, how=None):
    rng = ctx.rng
    loaded = load(ctx, root, cfg)
    if loaded is None:
        return
    size = M.sizeof(root, cfg)
    if size is None or not size:
        return
    inspect(root, cfg, ctx.ev)
    _, mask = M.encode(root, M.zero(root, cfg), cfg)
    d = gen.gen_data(rng, root, cfg)
    if d is None:
        return
    data = d[0]
    how = how or rng.choice(("parse", "parse", "default", "kwarg", "positional"))
    script = []     # the same history is replayed in both modes

    plan = []       # decided on the first mode, replayed on the second
    for comp, (cs, T) in loaded.items():
        ctx.check(len(T) == size, "union-size", lambda: witness(root, cfg, comp, expected=size, got=len(T)))
        det = lambda **kw: witness(root, cfg, comp, data, start=how, history=script, **kw)  # noqa: E731
        script = []
        if how == "parse":
            lead = bytes(8) if rng.random() < 0.5 else b""
            s = io.BytesIO(lead + data + b"\xa5\x5a\xff")
            s.seek(len(lead))
            o = call(T, s)
            if isinstance(o, Err):
                ctx.fail("parse", det(raised=repr(o)))
                return
            ctx.check(s.tell() - len(lead) == size, "consumed", lambda: det(expected=size, got=s.tell() - len(lead)))
            ctx.ev("consumption")
            buf = Buf(cfg, data)
            ctx.ev("parsed")
        elif how == "default":
            o = call(T)
            buf = Buf(cfg, bytes(size))
            ctx.ev("defaulted")
        else:
            if not plan and not hasattr(ctx, "_start"):
                cand = [i for i, f in enumerate(root.fields) if f.name is not None and not (isinstance(f.t, M.Sc) and f.t.kind == "void")]
                ctx._start = None
                if cand:
                    k = rng.choice(cand)
                    v = value_for(ctx, root.fields[k], cfg)
                    if v is not None:
                        ctx._start = (k, v)
            if ctx._start is None:
                del ctx._start
                return
            k, v = ctx._start
            f, F = root.fields[k], T.__fields__[k]
            x = make_field(f, F, {f.name: v})
            if not f.bits and has_union(f.t):
                v = canon(f.t, x)
                if isinstance(v, Err):
                    ctx.fail("value", det(raised=repr(v)))
                    del ctx._start
                    return
            script.append(f"T({f.name}={v!r}) ({how})")
            # one positional bytes value is an input to parse; a leading None counts as given: which one wins is not specified
            named = how == "kwarg" or k or isinstance(x, (bytes, bytearray))
            buf = Buf(cfg, bytes(size))
            if not buf.trial(root, (k,), v):
                del ctx._start
                return
            buf.write(root, 0, (k,), v)
            o = call(T, **{f.name: x}) if named else call(T, x)
            ctx.ev("constructed")
        if isinstance(o, Err):
            ctx.fail("construct", det(raised=repr(o)))
            return

        def judge(first=False):
            w = call(o.dumps)
            if isinstance(w, Err):
                ctx.fail("dump-raised", det(raised=repr(w)))
                return False
            if not ctx.check(len(w) == size and len(o) == size, "dump-size", lambda: det(expected=size, got=len(w))):
                return False
            # adopt the undetermined bits from the dump when they are old or zero
            for i in range(size):
                tol = buf.tol[i] & ~buf.w[i] & mask[i] & 255
                if tol and w[i] & tol != buf.b[i] & tol:
                    if not ctx.check(w[i] & tol & ~buf.b[i] & 255 == 0, "padding-invented", lambda: det(at=i, got=w.hex())):
                        return False
                    buf.b[i] = (buf.b[i] & ~tol & 255) | (w[i] & tol)
            want = bytes(x & m for x, m in zip(buf.b, mask))
            if not ctx.check(bytes(x & m for x, m in zip(w, mask)) == want, "dump", lambda: det(expected=want.hex(), got=w.hex())):
                return False
            v, _, p = M.parse(root, bytes(buf.b), cfg)
            if p.noncanon:
                # several overlapping unions: only part of the padding was cleared
                ctx.ev("noncanonical_view")
                return False
            got = canon(root, o)
            if not ctx.check(got == v, "member-values", lambda: det(expected=repr(v), got=repr(got), buffer=bytes(buf.b).hex())):
                return False
            # and each member is what its own type reads there
            if root.union:
                for f, F in zip(root.fields, T.__fields__):
                    if f.bits or f.name is None:
                        continue
                    r = call(F.type, io.BytesIO(bytes(buf.b)))
                    if isinstance(f.t, M.Sc) and f.t.kind == "void":
                        continue
                    ctx.check(not isinstance(r, Err) and canon(f.t, r) == v[f.name], "member-parse", lambda: det(
                        member=f.name, got=repr(r), expected=repr(v[f.name])))
            return True

        if not judge(True):
            if hasattr(ctx, "_start"):
                del ctx._start
            return
        spots = targets(root, T)
        if not spots:
            break
        held = {}
        n = nsteps if comp is False or not plan else len(plan)
        for s in range(n):
            if len(plan) <= s:
                while True:
                    # favour places inside unions
                    k = rng.randrange(len(spots))
                    if "union_member" in spots[k][5] or rng.random() < 0.3:
                        break
                v = value_for(ctx, spots[k][2], cfg)
                if v is None:
                    plan.append(None)
                else:
                    plan.append((k, v, rng.random() < 0.35, rng.randrange(4)))
            if plan[s] is None:
                continue
            k, v, use_held, extra = plan[s]
            p, acc, f, F, name, fl = spots[k]
            x = make_field(f, F, {f.name: v})
            if not f.bits and has_union(f.t):
                # building a union member by member may have cleared padding of some members
                v = canon(f.t, x)
                if isinstance(v, Err):
                    ctx.fail("value", det(raised=repr(v)))
                    break
            if not buf.trial(root, p, v):
                ctx.ev("noncanonical_view_avoided")
                continue
            if use_held and acc in held:
                parent = held[acc]
                ctx.ev("held_reference")
            else:
                parent = follow(o, acc)
                held.setdefault(acc, parent)
            script.append(f"{'held ' if use_held and acc in held else ''}{'.'.join(map(str, acc)) or 'o'}.{name} = {v!r}")
            r = call(setattr, parent, name, x)
            if isinstance(r, Err):
                ctx.fail("assignment-raised", det(raised=repr(r)))
                break
            for e in fl:
                ctx.ev(e)
            if "union_member" not in fl:
                # the object that was there before is detached now, as with any Python attribute
                for a in [a for a in held if a[:len(acc) + 1] == (*acc, name)]:
                    del held[a]
            buf.begin()
            buf.write(root, 0, p, v)
            ctx.ev("steps")
            if extra == 1:
                call(repr, o), call(bool, o)
            elif extra == 2:
                call(o.dumps), call(lambda: o == o)
            if not judge():
                break
    if hasattr(ctx, "_start"):
        del ctx._start
    ctx.key(M.program_text(root), cfg.endian, repr(plan), how, data)
    ctx.sample(witness(root, cfg, None, data, start=how, history=script))


def w_union(ctx, i):
    rng = ctx.rng
    prof = gen.Profile(depth=rng.choice((1, 2, 2, 3)), union=rng.choice((0.1, 0.4)), nested=rng.choice((0.3, 0.6)), anon=rng.choice((0.2, 0.6)), eof=0.0,
                       ptr=0.03, fields=(1, 5), zero_len=rng.random() < 0.2, neg_len=False)
    g = gen.Gen(rng, prof)
    root = g.struct(prof.depth, fixed=True, top=True, root=True, union=True)
    history(ctx, root, g.cfg, rng.randint(3, 14))
    count_features(ctx, root)


def w_inside(ctx, i):
    """Unions inside structures and arrays."""
    rng = ctx.rng
    prof = gen.Profile(depth=3, union=0.6, nested=0.6, anon=0.5, eof=0.0, fields=(1, 4), neg_len=False)
    g = gen.Gen(rng, prof)
    inner = g.struct(1, fixed=True, top=True, union=True)
    root = g.struct(2, fixed=True, top=True, root=True, union=False)
    t = inner
    k = rng.random()
    if k < 0.35:
        t = M.Ar(inner, "n", rng.randint(1, 3))
    if inner in g.structs and k > 0.7 and inner.align == root.align:
        g.structs.remove(inner)
        inner.top, inner.name = False, None
        root.fields.insert(rng.randrange(len(root.fields) + 1), M.Fd(None, inner))
    else:
        root.fields.insert(rng.randrange(len(root.fields) + 1), M.Fd("uu", t))
    try:
        M.layout(root, g.cfg)
    except M.OutOfDomain:
        return
    ctx.ev("struct_root")
    history(ctx, root, g.cfg, rng.randint(3, 10), "parse" if rng.random() < 0.8 else "default")


def w_pairs(ctx, i):
    """Every ordered pair of member types: assign one, look at the other."""
    rng = ctx.rng
    cfg = M.Cfg(rng.choice("<>!=@"), M.SC[rng.choice(("uint32", "uint64"))])
    kinds = [M.SC["uint8"], M.SC["int16"], M.SC["uint24"], M.SC["uint32"], M.SC["int64"], M.SC["uint128"], M.SC["float"], M.SC["double"], M.SC["float16"],
             M.SC["char"], M.SC["wchar"], M.Ar(M.SC["char"], "n", 5), M.Ar(M.SC["wchar"], "n", 3), M.Ar(M.SC["uint16"], "n", 3),
             M.Ar(M.Ar(M.SC["uint8"], "n", 2), "n", 3), M.En("PE", M.SC["uint16"], False, [("PE_A", 1), ("PE_B", 7)], [("PE_A", "1"), ("PE_B", "7")]),
             M.En("PF", M.SC["uint8"], True, [("PF_A", 1), ("PF_B", 2)], [("PF_A", None), ("PF_B", None)]), M.Pt(M.SC["uint8"]),
             "struct", "array of struct", "anonymous", "bits", "struct bits", "union"]
    align = rng.random() < 0.5

    def member(kind, nm):
        k = kinds[kind]
        mk = lambda fs, u=False: M.St(None, fs, u, align, False)  # noqa: E731
        if k == "struct":
            return M.Fd(nm, mk([M.Fd(f"{nm}a", M.SC["uint8"]), M.Fd(f"{nm}b", M.SC["uint32"]), M.Fd(f"{nm}c", M.SC["uint16"])]))
        if k == "array of struct":
            return M.Fd(nm, M.Ar(M.St(f"SS{nm}", [M.Fd(f"{nm}a", M.SC["uint8"]), M.Fd(f"{nm}b", M.SC["uint16"])], False, align, True), "n", 2))
        if k == "anonymous":
            return M.Fd(None, mk([M.Fd(f"{nm}a", M.SC["uint16"]), M.Fd(f"{nm}b", M.SC["uint8"]), M.Fd(f"{nm}c", M.SC["uint24"])]))
        if k == "bits":
            return M.Fd(nm, M.SC["uint16"], 11)
        if k == "struct bits":
            return M.Fd(nm, mk([M.Fd(f"{nm}a", M.SC["uint16"], 3), M.Fd(f"{nm}b", M.SC["uint16"], 9), M.Fd(f"{nm}c", M.SC["uint8"])]))
        if k == "union":
            return M.Fd(nm, mk([M.Fd(f"{nm}a", M.SC["uint32"]), M.Fd(f"{nm}b", M.Ar(M.SC["uint8"], "n", 3))], True))
        return M.Fd(nm, k)

    a, b = divmod(i % (len(kinds) ** 2), len(kinds))
    root = M.St("U", [member(a, "p"), member(b, "q")], True, align)
    if rng.random() < 0.4:
        root.fields.append(member(rng.randrange(len(kinds)), "r"))
    ctx.ev("pairs")
    history(ctx, root, cfg, 6, rng.choice(("parse", "default", "kwarg", "positional")))


def w_big(ctx, i):
    """Large members, very many members, deep nesting."""
    rng = ctx.rng
    cfg = M.Cfg(rng.choice("<>!=@"), M.SC[rng.choice(("uint32", "uint64"))])
    align = rng.random() < 0.5
    n = min(rng.choice(gen.LENGTHS), 5000)
    k = i % 4
    S = M.SC
    names = ("uint8", "int16", "uint24", "uint32", "int64", "char", "double", "uint128", "wchar")
    if k == 0:
        fs = [M.Fd("a", M.Ar(S[rng.choice(("uint8", "char"))], "n", n)), M.Fd("b", S["uint32"]), M.Fd("c", M.Ar(S["uint16"], "n", n // 2 + rng.randrange(2))),
              M.Fd("d", M.St(None, [M.Fd("d0", S["uint8"]), M.Fd("d1", M.Ar(S["uint32"], "n", rng.randrange(1, n // 4 + 2)))], False, align))]
        rng.shuffle(fs)
    elif k == 1:
        fs = [M.Fd(f"m{j}", S[rng.choice(names)]) for j in range(rng.choice((30, 127, 128, 256, 257, 300)))]
        for f in rng.sample(fs, 5):
            f.t = M.Ar(f.t, "n", rng.randrange(1, 9))
    elif k == 2:
        # a structure of very many fields over raw bytes
        inner = [M.Fd(f"m{j}", S[rng.choice(names)]) for j in range(rng.choice((30, 127, 128, 256, 257)))]
        st = M.St(None, inner, False, align)
        fs = [M.Fd(None if rng.random() < 0.5 else "s", st), M.Fd("raw", M.Ar(S["uint8"], "n", max(1, M.sizeof(st, cfg) + rng.randrange(-2, 3))))]
    else:
        # unions and structures inside each other
        t = S[rng.choice(names)]
        for j in range(rng.choice((5, 9, 16, 24))):
            u = bool(j % 2)
            t = M.St(None, [M.Fd(f"x{j}", t), M.Fd(f"y{j}", S[rng.choice(names)])] + ([M.Fd(f"z{j}", M.Ar(S["uint8"], "n", 3))] if u else []), u, align)
        fs = [M.Fd("a", t), M.Fd("b", S["uint64"])]
    root = M.St("U", fs, True, align)
    if rng.random() < 0.3:
        root.name, root.top = "UN", True
        root = M.St("HOLD", [M.Fd("h", S["uint8"]), M.Fd("u", root), M.Fd("t", S["uint16"])], False, align)
    try:
        M.layout(root, cfg)
    except M.OutOfDomain:
        return
    ctx.ev("big_unions")
    history(ctx, root, cfg, 4, rng.choice(("parse", "default")))


WORKLOADS = {
    "big": (w_big, 160, 2400),
    "pairs": (w_pairs, 24 * 24, 24 * 24 * 12),
    "union": (w_union, 3000, 40000),
    "inside": (w_inside, 1500, 20000),
}
