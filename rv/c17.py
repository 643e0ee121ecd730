"""C17 structure values: equality, hash, truth, construction and local assignment against the model, over many classes at once."""
from __future__ import annotations

import copy
import io
import keyword

from . import gen, lib
from . import model as M
from .boot import cstruct
from .common import MODES, Err, call, canon, has_union, load, make, make_field, mode_name, pad_free_unions

PID = "C17"
ANCHORS = ["types/structure.py"]
RULE = ("A case is one or several structure classes (random definitions; classes with equal field counts and other names, 0 to 600 fields, field names "
        "that are Python keywords, template names or attribute names) and instances made by parsing, construction and assignment.  Judged per field: "
        "equality and hash of pairs that differ in exactly that field (and are restored), truth with only that field set, construction by every "
        "subset style against assignment on a default, and the dumped bits before and after an assignment.  Non-trivial: at least one pair or assignment "
        "per field judged; distinct by definition, values and mode.")
ASSUMPTIONS = ["NaN is not used (unequal to itself)", "folded members are assigned as attributes, not passed to the constructor",
               "names with two leading and trailing underscores are Python's"]
REQUIRED = ["pairs", "equal_pairs", "unequal_pairs", "hashes", "unhashable", "truth", "falsy", "one_field_true", "constructed_kw", "constructed_pos", "constructed_mixed", "constructed_union", "assignments",
            "bit_assignments", "nested_assignments", "folded_assignments", "other_class", "wide_classes", "shared_counts", "hostile_names", "unions", "mode:compiled", "mode:interpreted",
            "evicted_templates", "big_classes", "none_values", "array_assignments"]


def falsy(t, v):
    """Is the value of a field falsy?"""
    if isinstance(t, M.Sc):
        if t.kind == "float":
            return v[1] in (bytes(t.size), b"\x80" + bytes(t.size - 1))
        return not v
    if isinstance(t, (M.En, M.Pt)):
        return v == 0
    if isinstance(t, M.Ar):
        return len(v) == 0
    return all(v[f.name] == 0 if f.bits else falsy(f.t, v if f.name is None else v[f.name]) for f in t.fields)


def equal(t, a, b):
    """Field-wise equality of canonical values (numbers compare as numbers)."""
    if isinstance(t, M.Sc) and t.kind == "float":
        z = (bytes(t.size), b"\x80" + bytes(t.size - 1))
        return a == b or (a[1] in z and b[1] in z)
    if isinstance(t, M.Ar) and not (isinstance(t.elem, M.Sc) and t.elem.kind in ("char", "wchar")):
        return len(a) == len(b) and all(equal(t.elem, x, y) for x, y in zip(a, b))
    if isinstance(t, M.St):
        return all(a[f.name] == b[f.name] if f.bits else equal(f.t, a if f.name is None else a[f.name], b if f.name is None else b[f.name]) for f in t.fields)
    return a == b


def has_nan(t, v):
    if isinstance(t, M.Sc):
        return t.kind == "float" and isinstance(v, tuple) and M.float_is_nan(v[1], "big")
    if isinstance(t, M.Ar):
        return isinstance(v, list) and any(has_nan(t.elem, x) for x in v)
    if isinstance(t, M.St):
        return any(not f.bits and has_nan(f.t, v if f.name is None else v[f.name]) for f in t.fields)
    return False


def hashable(t):
    if isinstance(t, M.Sc):
        return t.kind != "void"
    if isinstance(t, M.Ar):
        return isinstance(t.elem, M.Sc) and t.elem.kind in ("char", "wchar")
    if isinstance(t, M.St):
        return all(f.bits or hashable(f.t) for f in t.fields)
    return True


def is_void(f):
    return isinstance(f.t, M.Sc) and f.t.kind == "void"


def leaves(t, T, base=0, folded=False):
    """Assignable fields as (model field, library field, folded, container model type)."""
    for f, F in zip(t.fields, T.__fields__):
        if f.name is None:
            yield from leaves(f.t, F.type, base, True)
        elif not is_void(f):
            yield f, F, folded, t


def extents(t, cfg, base=0):
    """{field name: {byte index: mask of its bits}} of a fixed-size structure."""
    out = {}
    size, al, offs = M.layout(t, cfg)
    z = None if t.union else M.encode(t, M.zero(t, cfg), cfg)[0]
    for f, (off, first) in zip(t.fields, offs):
        if f.name is None:
            out.update(extents(f.t, cfg, base + off))
        elif f.bits:
            if t.union:
                one = St1(f)
                d = M.encode(one, {f.name: (1 << f.bits) - 1}, cfg)[0]
                out[f.name] = {base + off + i: x for i, x in enumerate(d) if x}
            else:
                v = M.zero(t, cfg)
                v[f.name] = (1 << f.bits) - 1
                d = M.encode(t, v, cfg)[0]
                out[f.name] = {base + i: x ^ y for i, (x, y) in enumerate(zip(d, z)) if x != y}
        else:
            out[f.name] = {base + off + i: 0xFF for i in range(M.sizeof(f.t, cfg))}
    return out


def St1(f):
    return M.St(None, [M.Fd(f.name, f.t, f.bits)])


def new_value(ctx, f, cfg, old=None):
    rng = ctx.rng
    for _ in range(8):
        if f.bits:
            v = rng.choice((0, 1, (1 << f.bits) - 1, rng.getrandbits(f.bits)))
        else:
            try:
                x = gen.gen_data(rng, f.t, cfg)
            except KeyError:
                return None
            if x is None:
                return None
            v = x[1]
        if old is None or (v != old):
            return v
    return None


def judge_pair(ctx, t, a, va, b, vb, d):
    want = equal(t, va, vb)
    ctx.ev("pairs")
    ctx.ev("equal_pairs" if want else "unequal_pairs")
    got = (call(lambda: a == b), call(lambda: b == a), call(lambda: a != b), call(lambda: b != a))
    ctx.check(got == (want, want, not want, not want), "equality", lambda: d(a=repr(va), b=repr(vb), expected=want, got=repr(got)))
    ha, hb = call(hash, a), call(hash, b)
    if hashable(t):
        ctx.ev("hashes")
        ok = isinstance(ha, int) and isinstance(hb, int) and (not want or ha == hb)
        ctx.check(ok, "hash", lambda: d(a=repr(va), b=repr(vb), equal=want, got=repr((ha, hb))))
        if ok and want:
            ctx.check(len({a, b}) == 1, "set", lambda: d(a=repr(va), b=repr(vb)))
    else:
        ctx.ev("unhashable")
        ok = isinstance(ha, Err) == isinstance(hb, Err) and (isinstance(ha, Err) or not want or ha == hb)
        ctx.check(ok, "hash", lambda: d(a=repr(va), b=repr(vb), equal=want, got=repr((ha, hb))))


def judge_truth(ctx, t, o, v, d):
    want = not falsy(t, v)
    got = call(bool, o)
    ctx.ev("truth")
    if not want:
        ctx.ev("falsy")
    ctx.check(got is want, "truth", lambda: d(value=repr(v), expected=want, got=repr(got)))


def judge_class(ctx, t, T, cfg, d, twin=None, rounds=1):
    """All obligations of one class; instances come from parsing, construction and assignment."""
    rng = ctx.rng
    fixed = M.sizeof(t, cfg) is not None
    zero = M.zero(t, cfg)
    dyn_union = not fixed and has_dyn_union(t)
    if dyn_union:
        return 0
    for _ in range(rounds):
        z = call(T)
        if isinstance(z, Err):
            ctx.fail("default-raised", d(raised=repr(z)))
            return 0
        judge_pair(ctx, t, z, zero, T(), zero, d)
        judge_truth(ctx, t, z, zero, d)
        x = gen.gen_data(rng, t, cfg)
        if x is None:
            return 0
        data, va = x[0], x[1]
        a = call(T, data)
        got = canon(t, a) if not isinstance(a, Err) else a
        if not ctx.check(got == va, "parse", lambda: d(input=data.hex(), expected=repr(va), got=repr(got))):
            return 0
        judge_truth(ctx, t, a, va, d)
        judge_pair(ctx, t, a, va, z, zero, d)
        judge_pair(ctx, t, a, va, a, va, d)
        b = T(data)
        judge_pair(ctx, t, a, va, b, va, d)
        # built another way: the same value
        if not has_union(t):
            c = call(make, T, t, va)
            if not ctx.check(not isinstance(c, Err) and canon(t, c) == va, "construct", lambda: d(value=repr(va), got=repr(c))):
                return 0
            judge_pair(ctx, t, a, va, c, va, d)
        # unlike things
        for o in (None, 0, data, va, [], object(), T, twin() if twin is not None else None):
            got = (call(lambda: a == o), call(lambda: a != o), call(lambda: o == a))
            ctx.check(got == (False, True, False), "equal-to-other-kind", lambda: d(other=repr(o), got=repr(got)))
        if twin is not None:
            tw = call(twin, data)
            if not isinstance(tw, Err):
                ctx.ev("other_class")
                got = (call(lambda: a == tw), call(lambda: tw == a), call(lambda: a != tw), call(lambda: tw != a))
                ctx.check(got == (False, False, True, True), "equal-to-other-type", lambda: d(value=repr(va), got=repr(got)))
        # one field at a time
        fs = list(leaves(t, T))
        if len(fs) > 24:
            fs = rng.sample(fs, 12) + fs[-4:] + fs[:2]
        ext = extents(t, cfg) if fixed else None
        b, vb = T(data), copy.deepcopy(va)
        in_union = has_union(t)
        local = ext is not None and (not in_union or pad_free_unions(t, cfg))
        for f, F, folded, owner in fs:
            old = vb[f.name]
            nv = new_value(ctx, f, cfg, old)
            if nv is None:
                continue
            before = call(b.dumps)
            r = call(setattr, b, f.name, make_field(f, F, {f.name: nv}))
            if isinstance(r, Err):
                if in_union:
                    # a value that another member cannot represent
                    b, vb = T(data), copy.deepcopy(va)
                    continue
                ctx.fail("assign-raised", d(field=f.name, value=repr(nv), raised=repr(r)))
                return 0
            ctx.ev("assignments")
            ctx.ev("bit_assignments" if f.bits else "array_assignments" if isinstance(f.t, M.Ar) else "nested_assignments" if isinstance(f.t, M.St) else "scalar_assignments")
            if folded:
                ctx.ev("folded_assignments")
            if in_union:
                ctx.ev("unions")
                nvb = canon(t, b)
                if isinstance(nvb, Err) or has_nan(t, nvb):
                    b, vb = T(data), copy.deepcopy(va)
                    continue
                vb2 = nvb
            else:
                vb2 = {**vb, f.name: copy.deepcopy(nv)}
            got = canon(t, b)
            if not ctx.check(got == vb2 and vb2[f.name] == nv if not in_union else True, "assign-value", lambda: d(field=f.name, value=repr(nv), expected=repr(vb2), got=repr(got))):
                return 0
            vb = vb2
            judge_pair(ctx, t, a, va, b, vb, d)
            judge_truth(ctx, t, b, vb, d)
            after = call(b.dumps)
            if local and not isinstance(before, Err):
                e = ext[f.name]
                ok = not isinstance(after, Err) and len(after) == len(before) and all((p ^ q) & ~e.get(i, 0) & 0xFF == 0 for i, (p, q) in enumerate(zip(before, after)))
                ctx.check(ok, "assignment-not-local", lambda: d(input=data.hex(), field=f.name, value=repr(nv), before=before.hex(), after=after.hex() if isinstance(after, bytes) else repr(after)))
            if not in_union and not isinstance(after, Err):
                enc = call(M.encode, t, vb, cfg)
                if not isinstance(enc, Err) and fixed:
                    ok = len(after) == len(enc[0]) and all(p & m == q & m for p, q, m in zip(after, enc[0], enc[1]))
                    ctx.check(ok, "assigned-bytes", lambda: d(field=f.name, value=repr(nv), expected=enc[0].hex(), got=after.hex()))
            if not in_union and rng.random() < 0.6:
                setattr(b, f.name, make_field(f, F, {f.name: old}))
                vb = {**vb, f.name: old}
                judge_pair(ctx, t, a, va, b, vb, d)
        # truth with a single field set
        if not in_union:
            for f, F, folded, owner in fs:
                o = T()
                v = M.zero(t, cfg)
                nv = new_value(ctx, f, cfg, None)
                if nv is None:
                    continue
                # everything falsy that can be
                for g, G, _, _ in leaves(t, T):
                    e = falsest(g)
                    if e is not None:
                        setattr(o, g.name, e)
                        v[g.name] = e
                judge_truth(ctx, t, o, v, d)
                setattr(o, f.name, make_field(f, F, {f.name: nv}))
                v[f.name] = nv
                ctx.ev("one_field_true")
                judge_truth(ctx, t, o, v, d)
        construct(ctx, t, T, cfg, va, d)
    return len(fs)


def falsest(f):
    """A falsy value for fields whose zero value is truthy."""
    if f.bits:
        return None
    if isinstance(f.t, M.Ar):
        return b"" if isinstance(f.t.elem, M.Sc) and f.t.elem.kind == "char" else "" if isinstance(f.t.elem, M.Sc) and f.t.elem.kind == "wchar" else []
    if isinstance(f.t, M.Sc) and f.t.kind in ("char", "wchar"):
        return b"" if f.t.kind == "char" else ""
    return None


def has_dyn_union(t):
    out = []
    M.walk(t, lambda x, d: out.append(1) if isinstance(x, M.St) and x.union and M.sizeof(x, M.Cfg()) is None else None)
    return bool(out)


def construct(ctx, t, T, cfg, va, d):
    """Keyword, positional and mixed construction equals assignment on a default instance."""
    rng = ctx.rng
    pairs = list(zip(t.fields, T.__fields__))
    own = [(f, F) for f, F in pairs if f.name is not None and not is_void(f)]
    if t.union:
        construct_union(ctx, t, T, cfg, va, d, pairs)
        return
    names = [f.name for f, _ in own]
    if len(set(names)) != len(names):
        return
    values = {}
    for f, F in own:
        v = va[f.name] if rng.random() < 0.7 else new_value(ctx, f, cfg)
        values[f.name] = va[f.name] if v is None else v

    def fresh(f, F):
        return make_field(f, F, values)

    def reference(which):
        o = T()
        for f, F in own:
            if f.name in which:
                setattr(o, f.name, fresh(f, F))
        return o

    trials = [("kw", rng.sample(own, rng.randint(0, len(own)))), ("kw", own), ("kw", own[-1:]), ("none", rng.sample(own, rng.randint(0, len(own))))]
    for style, some in trials:
        kw = {f.name: fresh(f, F) for f, F in some}
        if style == "none":
            kw.update({f.name: None for f, F in own if f.name not in kw and rng.random() < 0.7})
            ctx.ev("none_values")
        compare(ctx, t, cfg, call(T, **kw), reference({f.name for f, _ in some}), {f.name for f, _ in some}, values, f"keywords {sorted(kw)}", d, va)
        ctx.ev("constructed_kw")
    # positional: a prefix of all the fields
    for style in ("pos", "mixed"):
        n = rng.randint(0, len(pairs))
        args, which = [], set()
        okay = True
        for f, F in pairs[:n]:
            if f.name is None or is_void(f):
                args.append(None)      # an explicit None means the default
            else:
                args.append(fresh(f, F))
                which.add(f.name)
        if len(args) == 1 and (isinstance(args[0], (bytes, bytearray)) or hasattr(args[0], "read") or args[0] is None):
            okay = False               # a single bytes-like argument is parsed
        kw = {}
        if style == "mixed":
            rest = [(f, F) for f, F in pairs[n:] if f.name is not None and not is_void(f)]
            for f, F in rng.sample(rest, rng.randint(0, len(rest))):
                kw[f.name] = fresh(f, F)
                which.add(f.name)
        if not okay or (len(args) == 1 and not kw and callable(getattr(args[0], "read", None))):
            continue
        o = call(T, *args, **kw)
        compare(ctx, t, cfg, o, reference(which), which, values, f"{n} positional, keywords {sorted(kw)}", d, va)
        ctx.ev("constructed_pos" if style == "pos" else "constructed_mixed")


def construct_union(ctx, t, T, cfg, va, d, pairs):
    """One member, by keyword or as the first positional argument, equals assigning it on a default instance (what several
    overlapping members together mean is not stated)."""
    rng = ctx.rng
    for n, (f, F) in enumerate(pairs):
        if f.name is None or is_void(f):
            continue
        for v in (va[f.name], new_value(ctx, f, cfg), M.zero(f.t, cfg) if not f.bits else 0):
            if v is None:
                continue
            ref = call(T)
            r = call(setattr, ref, f.name, make_field(f, F, {f.name: v}))
            forms = [("keyword", (), {f.name: make_field(f, F, {f.name: v})})]
            x = make_field(f, F, {f.name: v})
            if n == 0 and not isinstance(x, (bytes, bytearray)) and not callable(getattr(x, "read", None)):
                forms.append(("positional", (x,), {}))
            for form, args, kw in forms:
                got = call(T, *args, **kw)
                how = f"{form} {f.name} = {v!r}"
                ctx.ev("constructed_union")
                if isinstance(r, Err) or isinstance(got, Err):
                    # a value that some other member cannot view
                    ctx.check(isinstance(r, Err) == isinstance(got, Err), "construct-raised", lambda: d(how=how, raised=repr(got), assigned=repr(r)))
                    continue
                cg, cr = canon(t, got), canon(t, ref)
                ctx.check(cg == cr, "construct", lambda: d(how=how, assigned=repr(cr), constructed=repr(cg)))
                if not isinstance(cr, Err) and has_nan(t, cr):
                    continue
                q = (call(lambda: got == ref), call(lambda: ref == got), call(bool, got) == call(bool, ref))
                ctx.check(q == (True, True, True), "construct-equal", lambda: d(how=how, constructed=repr(cg), assigned=repr(cr), got=repr(q)))
                a, b = call(got.dumps), call(ref.dumps)
                ctx.check(a == b if not isinstance(a, Err) else isinstance(b, Err) and a.name == b.name, "construct-dump", lambda: d(how=how, constructed=repr(a), assigned=repr(b)))


def compare(ctx, t, cfg, got, ref, which, values, how, d, va):
    if isinstance(got, Err):
        ctx.fail("construct-raised", d(how=how, raised=repr(got)))
        return
    want = {**M.zero(t, cfg), **{n: values[n] for n in which}}
    cg, cr = canon(t, got), canon(t, ref)
    if has_union(t):
        ctx.check(cg == cr, "construct", lambda: d(how=how, assigned=repr(cr), constructed=repr(cg)))
    else:
        ctx.check(cg == want == cr, "construct", lambda: d(how=how, expected=repr(want), assigned=repr(cr), constructed=repr(cg)))
    r = (call(lambda: got == ref), call(lambda: ref == got))
    ctx.check(r == (True, True), "construct-equal", lambda: d(how=how, constructed=repr(cg), assigned=repr(cr), got=repr(r)))
    a, b = call(got.dumps), call(ref.dumps)
    ctx.check(a == b if not isinstance(a, Err) else isinstance(b, Err) and a.name == b.name, "construct-dump", lambda: d(how=how, constructed=repr(a), assigned=repr(b)))


def w_random(ctx, i):
    rng = ctx.rng
    kw = rng.choice(({}, {"bits": 0.5}, {"nested": 0.5, "anon": 0.6}, {"array": 0.5, "multidim": 0.4}, {"dyn": 0.6, "array": 0.5}, {"union": 0.35, "nested": 0.3}, {"enum": 0.4, "ptr": 0.2}))
    g = gen.Gen(rng, gen.Profile(eof=0.0, **kw))
    if rng.random() < 0.3:
        g.cfg.consts = {"KA": rng.randrange(4), "KB": 2}
    root = g.program()
    cfg = g.cfg
    libs = load(ctx, root, cfg)
    if libs is None:
        return
    other = call(lib.build, root, cfg, True)
    for comp in MODES:
        cs, T = libs[comp]
        ctx.ev("mode:" + mode_name(comp))
        twin = other[1] if not isinstance(other, Err) and not rng.randrange(2) else libs[not comp][1]
        n = judge_class(ctx, root, T, cfg, lambda **k: {**lib.describe(root, cfg), "mode": mode_name(comp), **k}, twin)
        if n:
            ctx.key(M.program_text(root), mode_name(comp), cfg.endian, n)
    for t in M.deps(root):
        if isinstance(t, M.St) and t is not root:
            judge_class(ctx, t, cs.resolve(t.name), cfg, lambda **k: {**lib.describe(t, cfg), "mode": mode_name(comp), **k})
    ctx.sample(lib.describe(root, cfg))


def w_big(ctx, i):
    """One big dimension: long arrays and strings, very many fields or bit-fields, deep nesting."""
    root, cfg = gen.big_program(ctx.rng, dynamic=ctx.rng.random() < 0.3, limit=3000)
    comp = ctx.rng.random() < 0.5
    r = call(lib.build, root, cfg, comp)
    if isinstance(r, Err):
        ctx.fail("definition-rejected", {**lib.describe(root, cfg), "raised": repr(r)})
        return
    ctx.ev("big_classes")
    twin = call(lib.build, root, cfg, not comp)
    judge_class(ctx, root, r[1], cfg, lambda **k: {**lib.describe(root, cfg), "mode": mode_name(comp), **k}, None if isinstance(twin, Err) else twin[1])
    ctx.key("big", M.program_text(root), comp)


HOSTILE = ["self", "cls", "other", "_0", "_1", "_2", "_3", "__0", "__x", "None_", "size", "type", "cs", "fields", "lookup", "alignment", "dynamic", "name", "value", "data", "stream",
           "context", "result", "obj", "r", "s", "o", "args", "kwargs", "object", "getattr", "any", "hash", "tuple", "_d_0", "_d_1", "d", "_d", "f", "x", "a", "A", "T", "BaseType", "read_",
           "__init", "eq", "buf", "_buf", "length", "num_entries", "null_terminated", "_", "ArrayType", "offset", "bits", "__compiled", "class_"] + keyword.kwlist
HOSTILE = [h for h in HOSTILE if h not in ("_",)]
SMALL = ["uint8", "uint16", "int8", "int32", "uint64", "float", "double", "char", "wchar", "uint24", "int128"]


def flat_class(ctx, name, n, hostile, tag):
    rng = ctx.rng
    names = [f"{tag}{k}" for k in range(n)]
    if hostile:
        pool = rng.sample(HOSTILE, min(len(HOSTILE), n))
        for k, h in zip(rng.sample(range(n), len(pool)), pool):
            names[k] = h
    fs = []
    style = rng.randrange(3)
    for nm in names:
        if style == 0:
            t = M.SC["uint8"]
        else:
            t = M.SC[rng.choice(SMALL)]
        if style == 2 and rng.random() < 0.15:
            t = M.Ar(M.SC[rng.choice(("uint8", "uint16", "char", "int24"))], "n", rng.randrange(4))
        bits = rng.randint(1, 8) if style and t is M.SC["uint8"] and rng.random() < 0.5 else None
        if bits and bits < 8:
            # every bit-field opens its own unit: it is followed by a field of another type
            fs.append(M.Fd(nm, M.SC["uint8"], bits))
            continue
        fs.append(M.Fd(nm, t))
    st = M.St(name, fs, False, rng.random() < 0.3, True)
    return st


def straddles(st, cfg):
    return isinstance(call(M.layout, st, cfg), Err)


def w_wide(ctx, i):
    """Classes of equal and different field counts used in turns; hostile names; very many fields."""
    rng = ctx.rng
    cfg = M.Cfg(rng.choice("<>!=@"))
    counts = [0, 1, 2, 3, 5, 8, 13, 20, 40]
    big = i % 12 == 0
    if big:
        counts = [rng.choice((60, 127, 128, 129, 200)), rng.choice((254, 255, 256, 257, 258, 300)), rng.choice((511, 512, 513, 600))]
        ctx.ev("wide_classes")
    comp = rng.random() < 0.5
    classes = []
    n = rng.choice(counts)
    for k in range(rng.randint(2, 4)):
        if rng.random() < 0.3:
            n = rng.choice(counts)
        st = flat_class(ctx, f"C{k}", n, rng.random() < 0.5, "abcd"[k])
        for _ in range(20):
            if not straddles(st, cfg):
                break
            st.fields = [f for f in st.fields if not f.bits] + [M.Fd("tail", M.SC["uint8"])]
        ctx.ev("hostile_names", sum(f.name in HOSTILE for f in st.fields))
        classes.append(st)
    if len({len(c.fields) for c in classes}) < len(classes):
        ctx.ev("shared_counts")
    text = ""
    cs = cstruct(endian=cfg.endian)
    todo = []
    for st in classes:
        t1 = M.struct_text(st) + ";\n"
        text += ("aligned " if st.align else "") + t1
        if st.fields:
            r = call(cs.load, t1, compiled=comp, align=st.align)
        else:
            r = call(cs.load, f"struct {st.name} {{ }};", compiled=comp)
        if isinstance(r, Err):
            ctx.fail("definition-rejected", {"definition": t1, "raised": repr(r)})
            return
        todo.append((st, cs.resolve(st.name)))

    def d(**k):
        return {"definitions": text[-4000:], "endian": cfg.endian, "mode": mode_name(comp), **k}

    for _ in range(1 if big else 2):
        rng.shuffle(todo)
        for st, T in todo:
            judge_class(ctx, st, T, cfg, lambda **k: d(judged=st.name, **k))
    # same shape, other class
    for st, T in todo:
        cs2 = cstruct(endian=cfg.endian)
        if not st.fields:
            continue
        r = call(cs2.load, M.struct_text(st).replace(f"struct {st.name} ", f"struct Other{st.name} ") + ";", compiled=comp, align=st.align)
        if isinstance(r, Err):
            continue
        a, b = T(), cs2.resolve("Other" + st.name)()
        ctx.ev("other_class")
        ctx.check((a == b, b == a, a != b) == (False, False, True), "equal-to-other-type", lambda: d(judged=st.name))
    ctx.key("wide", text, comp)


def w_counts(ctx, i):
    """More field counts in a row than the template caches hold; the early ones are judged again afterwards."""
    rng = ctx.rng
    cs = cstruct()
    T = {}
    lo = (i * 37) % 60
    for n in range(lo, lo + 150):
        body = " ".join(f"uint8 {'abcxyz'[(n + i) % 6]}{k};" for k in range(n))
        r = call(cs.load, f"struct N{n} {{ {body} }};", compiled=bool(n % 2))
        if isinstance(r, Err):
            ctx.fail("definition-rejected", {"fields": n, "raised": repr(r)})
            return
        T[n] = cs.resolve(f"N{n}")
    order = list(T)
    rng.shuffle(order)
    for n in order:
        c = T[n]
        pre = "abcxyz"[(n + i) % 6]
        data = bytes(rng.randrange(1, 256) for _ in range(n))
        a, b = c(data), c(*data) if n > 1 else c(data)

        def d(**k):
            return {"fields": n, "input": data.hex(), **k}

        ctx.ev("evicted_templates")
        ctx.check(a == b and hash(a) == hash(b) and bool(a) is (n > 0) and a.dumps() == data, "many-classes", lambda: d(a=repr(a), b=repr(b)))
        ctx.check(not c() and c() == c(bytes(n)) and c().dumps() == bytes(n), "many-classes-default", d)
        ctx.check([getattr(a, f"{pre}{k}") for k in range(n)] == list(data), "many-classes-fields", d)
        for k in sorted({0, n // 2, n - 1} & set(range(n))):
            o = c(**{f"{pre}{k}": 7})
            ctx.check(o.dumps() == bytes(k) + b"\x07" + bytes(n - k - 1) and bool(o), "many-classes-keyword", lambda: d(field=k, got=o.dumps().hex()))
            setattr(b, f"{pre}{k}", data[k] ^ 1)
            ctx.check(a != b and b.dumps() == data[:k] + bytes([data[k] ^ 1]) + data[k + 1:], "many-classes-assign", lambda: d(field=k, got=b.dumps().hex()))
            setattr(b, f"{pre}{k}", data[k])
            ctx.check(a == b and hash(a) == hash(b), "many-classes-restore", lambda: d(field=k))
    ctx.key("counts", lo, i)


# attributes of a structure class that a folded member of the same name collides with
SHADOW = ["size", "alignment", "dynamic", "fields", "lookup", "cs", "type", "name", "offset", "self", "cls", "value", "data", "stream", "other", "bits", "ArrayType", "read", "reads", "write", "commit",
          "add_field", "start_update", "_read", "_write", "_size", "mro", "dereference", "__fields", "_name", "num_entries", "resolve", "from_stream"]


def n_shadow(tier=None):
    return len(SHADOW) * 4


def w_folded(ctx, i):
    """Members of an anonymous structure that share a name with an attribute of the class."""
    nm = SHADOW[i // 4]
    comp, align = bool(i % 2), bool(i // 2 % 2)
    text = f"struct T {{ struct {{ uint8 {nm}; uint8 yy; }}; uint8 q; }};"
    cs = cstruct()

    def d(**k):
        return {"definition": text, "mode": mode_name(comp), "align": align, **k}

    r = call(cs.load, text, compiled=comp, align=align)
    if isinstance(r, Err):
        ctx.fail("folded-name", d(raised=repr(r)))
        return
    T = cs.resolve("T")
    o = call(T, b"\x01\x02\x03")
    got = None if isinstance(o, Err) else call(getattr, o, nm)
    ctx.ev("folded_names")
    if not ctx.check(got == 1 and not isinstance(got, Err), "folded-name", lambda: d(field=nm, expected=1, got=repr(got))):
        return
    setattr(o, nm, 9)
    r = call(o.dumps)
    many = call(lambda: T[2](b"\x01\x02\x03\x04\x05\x06"))
    ok = not isinstance(many, Err) and [call(getattr, x, nm) for x in many] == [1, 4] and [x.q for x in many] == [3, 6]
    ctx.check(ok, "folded-name", lambda: d(field=nm, array=repr(many)))
    r2 = call(lambda: T.read(io.BytesIO(b"\x05\x06\x07")))
    ctx.check(not isinstance(r2, Err) and getattr(r2, nm) == 5 and r2.q == 7, "folded-name", lambda: d(field=nm, read=repr(r2)))
    ctx.check(r == b"\x09\x02\x03" and getattr(o, nm) == 9 and len(T) == 3, "folded-name", lambda: d(field=nm, got=repr(r)))


QUICK_FACTOR = 2
WORKLOADS = {
    "folded": (w_folded, n_shadow, n_shadow),
    "wide": (w_wide, 240, 4000),
    "counts": (w_counts, 8, 60),
    "big": (w_big, 160, 2400),
    "random": (w_random, 1400, 25000),
}
