"""C14 hidden state: histories over several cstruct objects and instances against replicas that share nothing."""
from __future__ import annotations

import copy
import gc
import io

from . import gen, lib
from . import model as M
from .boot import cstruct
from .c13 import sig
from .common import MODES, Err, assign, call, canon, has_union, make, make_field, masked, mode_name

PID = "C14"
ANCHORS = ["types/structure.py", "types/base.py", "cstruct.py", "types/packed.py", "expression.py"]
RULE = ("A case is a world of 2-4 cstruct objects (the same definition under another byte order, alignment, mode and constants; same-named different "
        "definitions) and a history of 20-60 operations: default and partial construction, parsing by every call form, failing parses, loads and "
        "dumps, mutation of fields, list elements, list lengths and nested structures, byte order switches, constants, new types and fields elsewhere.  Each "
        "instance has a replica of plain data; after every operation all instances, fresh defaults of all types and fixed parse probes "
        "are compared with their replicas.  Non-trivial: a mutation or environment change followed by comparisons; distinct by history.")
ASSUMPTIONS = ["objects passed in by the caller are fresh (sharing made by the caller is Python's)",
               "instances with unions are judged for independence, their own new value is C11's subject"]
REQUIRED = ["defaults", "partial", "parses", "failed_parses", "failed_dumps", "failed_loads", "mutations", "mutated_default", "mutated_parsed", "list_element", "list_length",
            "nested_struct", "array_of_struct", "endian_switches", "constants_changed", "loads", "fields_added_elsewhere", "same_name_other_cs", "unions_mutated", "stream_faults",
            "instances_compared", "defaults_compared", "probe_parses", "array_defaults", "signatures", "dumps", "discarded", "replayed_scripts", "replay_probes", "replay_values", "replay_disturbances", "replay_replaced", "replay_failed_loads"]


class World:
    """One cstruct object, its configuration as the model sees it, and the types loaded in it."""

    def __init__(self, root, cfg, comp):
        self.cfg = M.Cfg(cfg.endian, cfg.ptr, dict(cfg.consts))
        self.root, self.comp = root, comp
        self.cs = None
        self.types = {}      # name -> (model type, library type)
        self.sigs = {}
        self.probes = []
        self.frozen = False  # fields were added by hand: only used to disturb the others
        self.flips = 0


class Inst:
    def __init__(self, w, t, T, obj, val, how):
        self.w, self.t, self.T, self.obj, self.val, self.how = w, t, T, obj, val, how
        self.clean = True     # list lengths as declared
        self.flips = w.flips
        self.union = has_union(t)


def open_world(ctx, root, cfg, comp):
    w = World(root, cfg, comp)
    r = call(lib.build, root, cfg, comp)
    if isinstance(r, Err):
        ctx.fail("definition-rejected", {**lib.describe(root, cfg), "raised": repr(r)})
        return None
    w.cs, _ = r
    for t in M.deps(root):
        if isinstance(t, M.St):
            T = w.cs.resolve(t.name)
            w.types[t.name] = (t, T)
            w.sigs[t.name] = sig(w.cs, T)
    return w


def flip_align(t):
    """A copy of a program with every structure in the other alignment mode."""
    t = copy.deepcopy(t, {id(s): s for s in M.SC.values()})
    seen = []
    for x in M.deps(t):
        M.walk(x, lambda y, d: seen.append(y) if isinstance(y, M.St) and not any(y is s for s in seen) else None)
    for y in seen:
        y.align = not y.align
    return t


def sub_objects(t, T, obj, val, path=()):
    """Every mutable place inside an instance: (kind, path, model type, library type, object, replica, which)."""
    out = []
    if isinstance(t, M.Ar):
        if isinstance(t.elem, M.Sc) and t.elem.kind in ("char", "wchar"):
            return out
        out.append(("length", path, t, T, obj, val, None))
        for i, (o, v) in enumerate(zip(obj, val)):
            if isinstance(t.elem, (M.St, M.Ar)):
                out += sub_objects(t.elem, T.type, o, v, (*path, i))
            if not isinstance(t.elem, M.Ar):
                out.append(("element", path, t, T, obj, val, i))
        return out
    for f, F in zip(t.fields, T.__fields__):
        if f.name is None:
            out += sub_objects(f.t, F.type, obj, val, path)
            continue
        if isinstance(f.t, M.Sc) and f.t.kind == "void":
            continue
        out.append(("field", (*path, f.name), t, F, obj, val, f))
        if isinstance(f.t, (M.St, M.Ar)) and not f.bits:
            out += sub_objects(f.t, F.type, getattr(obj, f.name), val[f.name], (*path, f.name))
    return out


def lib_type(T, t, f):
    """Library Field of model field f of structure t with library class T."""
    for g, G in zip(t.fields, T.__fields__):
        if g is f:
            return G
        if g.name is None:
            r = lib_type(G.type, g.t, f)
            if r is not None:
                return r
    return None


def new_value(ctx, t, cfg):
    try:
        d = gen.gen_data(ctx.rng, t, cfg)
    except KeyError:
        # its length depends on another field
        return None
    return None if d is None else d[1]


class FaultStream(io.BytesIO):
    def __init__(self, data, at):
        super().__init__(data)
        self.left = at

    def read(self, n=-1):
        self.left -= 1
        if self.left < 0:
            raise OSError("injected")
        return super().read(n)


def mutate(ctx, inst):
    rng = ctx.rng
    spots = sub_objects(inst.t, inst.T, inst.obj, inst.val)
    if not spots:
        return None
    deep = [s for s in spots if len(s[1]) > 1 or s[0] != "field"]
    if deep and rng.random() < 0.6:
        spots = deep
    kind, path, t, T, obj, val, x = rng.choice(spots)
    cfg = inst.w.cfg
    ev = ctx.ev
    if inst.union:
        # only attributes: the array inside a union cannot know where it lives
        spots = [s for s in spots if s[0] == "field"]
        if not spots:
            return None
        kind, path, t, T, obj, val, x = rng.choice(spots)
    if kind == "field":
        f = x
        if f.bits:
            v = rng.getrandbits(f.bits)
        else:
            v = new_value(ctx, f.t, cfg)
            if v is None:
                return None
        r = call(setattr, obj, f.name, make_field(f, T, {f.name: v}))
        if len(path) > 1:
            ev("array_of_struct" if any(isinstance(p, int) for p in path) else "nested_struct")
        if inst.union:
            ev("unions_mutated")
            got = canon(inst.t, inst.obj)
            if isinstance(r, Err) or isinstance(got, Err):
                # a value that cannot be viewed by every member: drop the instance
                return "drop"
            inst.val = got
        else:
            if isinstance(r, Err):
                ctx.fail("assignment-raised", {"path": path, "raised": repr(r)})
                return None
            val[f.name] = copy.deepcopy(v)
        return f"{'.'.join(map(str, path))} = {v!r}"
    if kind == "element":
        v = new_value(ctx, t.elem, cfg)
        if v is None:
            return None
        obj[x] = make(T.type, t.elem, v)
        val[x] = copy.deepcopy(v)
        ev("list_element")
        return f"{'.'.join(map(str, path))}[{x}] = {v!r}"
    # the length of a list
    inst.clean = False
    ev("list_length")
    E = T.type
    k = rng.randrange(4)
    if k == 0 or not obj:
        v = new_value(ctx, t.elem, cfg)
        if v is None:
            return None
        obj.append(make(E, t.elem, v))
        val.append(copy.deepcopy(v))
        return f"{'.'.join(map(str, path))}.append({v!r})"
    if k == 1:
        obj.pop()
        val.pop()
        return f"{'.'.join(map(str, path))}.pop()"
    if k == 2:
        obj.clear()
        val.clear()
        return f"{'.'.join(map(str, path))}.clear()"
    obj.reverse()
    val.reverse()
    return f"{'.'.join(map(str, path))}.reverse()"


def w_history(ctx, i):
    rng = ctx.rng
    prof = gen.Profile(depth=2, fields=(1, 5), nested=0.4, anon=0.35, array=0.45, dyn=0.35, mixed_align=0.0, multidim=0.35, union=rng.choice((0.0, 0.0, 0.25)),
                       eof=0.0, ptr=0.05)
    g = gen.Gen(rng, prof)
    g.cfg.consts = {"KA": rng.randrange(4), "KB": 2}
    root = g.struct(2, top=True, root=True)
    g2 = gen.Gen(rng, prof)
    g2.cfg.consts = {"KA": rng.randrange(4), "KB": 1}
    root2 = g2.struct(2, top=True, root=True)    # same names, another program
    worlds = []
    for k in range(rng.randint(2, 4)):
        base, r, cfg = ("same", root, g.cfg) if k != 1 or rng.random() < 0.3 else ("other", root2, g2.cfg)
        if k >= 2 and rng.random() < 0.5:
            r = flip_align(root)
            cfg = g.cfg
        c = M.Cfg(cfg.endian if k == 0 else rng.choice("<>!=@"), cfg.ptr if k == 0 else M.SC[rng.choice(gen.PTRS)], cfg.consts)
        w = open_world(ctx, r, c, rng.random() < 0.6)
        if w is None:
            return
        worlds.append(w)
        if k:
            ctx.ev("same_name_other_cs")
    live = []
    script = []

    def d(**kw):
        return {"worlds": [{**lib.describe(w.root, w.cfg), "compiled": w.comp} for w in worlds], "history": script, **kw}

    def judge(inst, what):
        got = canon(inst.t, inst.obj)
        ctx.ev("instances_compared")
        return ctx.check(got == inst.val, "instance-changed", lambda: d(instance=inst.how, after=what, expected=repr(inst.val), got=repr(got)))

    def judge_all(what):
        for x in live:
            judge(x, what)
        for k, w in enumerate(worlds):
            if w.frozen:
                continue
            for n, (t, T) in w.types.items():
                o = call(T)
                if isinstance(o, Err):
                    if M.sizeof(t, w.cfg) is None and any(True for _ in [0] if has_dynamic_union(t)):
                        continue
                    ctx.fail("default-raised", d(world=k, type=n, raised=repr(o)))
                    continue
                ctx.ev("defaults_compared")
                z = M.zero(t, w.cfg)
                got = canon(t, o)
                ctx.check(got == z, "default-changed", lambda: d(world=k, type=n, after=what, expected=repr(z), got=repr(got)))

    def probe(what):
        for k, w in enumerate(worlds):
            if w.frozen:
                continue
            for t, T, data, v, flips, consts in w.probes:
                if flips != w.cfg.endian or consts != w.cfg.consts:
                    continue
                ctx.ev("probe_parses")
                got = call(T, data)
                got = canon(t, got) if not isinstance(got, Err) else got
                ctx.check(got == v, "parse-changed", lambda: d(world=k, input=data, after=what, expected=repr(v), got=repr(got)))

    def signatures(what):
        for k, w in enumerate(worlds):
            if w.frozen:
                continue
            for n, (t, T) in w.types.items():
                s = sig(w.cs, T)
                ctx.ev("signatures")
                ctx.check(s == w.sigs[n] and call(w.cs.resolve, n) is T, "type-changed", lambda: d(world=k, type=n, after=what, before=repr(w.sigs[n])[:500], now=repr(s)[:500]))

    def add_probe(w):
        t, T = rng.choice(list(w.types.values()))
        x = gen.gen_data(rng, t, w.cfg)
        if x is not None:
            w.probes.append((t, T, x[0], x[1], w.cfg.endian, dict(w.cfg.consts)))
            del w.probes[:-4]

    for w in worlds:
        add_probe(w)
        add_probe(w)
    nops = rng.randint(20, 60)
    for step in range(nops):
        ctx.ev("operations")
        op = rng.choice(("default", "default", "partial", "parse", "parse", "mutate", "mutate", "mutate", "mutate", "mutate", "dump", "fail-parse", "fail-dump",
                         "fail-load", "fail-stream", "endian", "const", "load", "add-field", "array", "discard", "kwmisuse"))
        k = rng.randrange(len(worlds))
        w = worlds[k]
        t, T = rng.choice(list(w.types.values()))
        what = f"{op} in world {k}"
        if op in ("default", "partial", "parse") and w.frozen:
            continue
        if op == "default":
            o = call(T)
            if isinstance(o, Err):
                continue
            ctx.ev("defaults")
            live.append(Inst(w, t, T, o, M.zero(t, w.cfg), f"default {t.name} of world {k} at step {step}"))
        elif op == "partial":
            fs = [f for f in t.fields if f.name is not None and not (isinstance(f.t, M.Sc) and f.t.kind == "void")]
            if not fs or t.union or has_dynamic_union(t):
                continue
            some = rng.sample(fs, rng.randint(1, len(fs)))
            val = M.zero(t, w.cfg)
            kw = {}
            for f in some:
                v = rng.getrandbits(f.bits) if f.bits else new_value(ctx, f.t, w.cfg)
                if v is None:
                    continue
                kw[f.name] = make_field(f, lib_type(T, t, f), {f.name: v})
                val[f.name] = copy.deepcopy(v)
            o = call(T, **kw)
            ctx.ev("partial")
            if isinstance(o, Err):
                ctx.fail("construct-raised", d(what=what, raised=repr(o)))
                return
            if any(has_union(f.t) for f in t.fields):
                # sequential assignment of union members may have cleared padding
                val = canon(t, o)
            live.append(Inst(w, t, T, o, val, f"partial {t.name} of world {k} at step {step}"))
        elif op == "parse":
            x = gen.gen_data(rng, t, w.cfg)
            if x is None:
                continue
            data, v, end, q = x
            form = rng.randrange(6)
            if form == 0:
                o = call(T, data)
            elif form == 1:
                o = call(T, io.BytesIO(data))
            elif form == 2:
                o = call(T.reads, data)
            elif form == 3:
                o = call(T.read, io.BytesIO(data))
            elif form == 4:
                o = call(w.cs.read, t.name, io.BytesIO(data))
            else:
                o = call(T, memoryview(data))
            ctx.ev("parses")
            got = canon(t, o) if not isinstance(o, Err) else o
            if not ctx.check(got == v, "parse", lambda: d(what=what, input=data, expected=repr(v), got=repr(got))):
                return
            live.append(Inst(w, t, T, o, copy.deepcopy(v), f"parsed {t.name} of world {k} at step {step}"))
        elif op == "mutate":
            if not live:
                continue
            inst = rng.choice(live)
            if inst.w.frozen or (inst.union and inst.flips != inst.w.flips):
                continue
            r = mutate(ctx, inst)
            if r is None:
                continue
            if r == "drop":
                live.remove(inst)
                continue
            ctx.ev("mutations")
            ctx.ev("mutated_default" if inst.how.startswith("default") else "mutated_parsed" if inst.how.startswith("parsed") else "mutated_partial")
            what = f"{inst.how}: {r}"
        elif op == "dump":
            if not live:
                continue
            inst = rng.choice(live)
            if not inst.clean or inst.w.frozen or inst.union:
                continue
            e = call(M.encode, inst.t, inst.val, inst.w.cfg)
            if isinstance(e, Err):
                continue
            r = call(inst.obj.dumps)
            ctx.ev("dumps")
            if M.sizeof(inst.t, inst.w.cfg) is not None:
                ctx.check(r == e[0], "dump", lambda: d(what=what, instance=inst.how, expected=e[0].hex(), got=repr(r)))
        elif op == "fail-parse":
            x = gen.gen_data(rng, t, w.cfg)
            if x is None:
                continue
            data = x[0][:rng.randrange(len(x[0]) + 1)] if rng.random() < 0.7 else rng.randbytes(rng.randrange(20))
            if call(T, data).__class__ is Err:
                ctx.ev("failed_parses")
        elif op == "fail-stream":
            x = gen.gen_data(rng, t, w.cfg)
            if x is None:
                continue
            if call(T, FaultStream(x[0], rng.randrange(4))).__class__ is Err:
                ctx.ev("stream_faults")
        elif op == "fail-dump":
            o = call(T)
            ints = [f for f in t.fields if f.name and not t.union and isinstance(f.t, (M.Sc, M.En)) and not f.bits and
                    (isinstance(f.t, M.En) or f.t.kind == "int")]
            if isinstance(o, Err) or not ints:
                continue
            f = rng.choice(ints)
            setattr(o, f.name, "text" if rng.random() < 0.5 else 1 << 300)
            if call(o.dumps).__class__ is Err:
                ctx.ev("failed_dumps")
            what += f" {t.name}.{f.name}"
        elif op == "fail-load":
            text = rng.choice(("struct Bad { nope x; };", "struct {", "struct Bad2 { uint8 a:9; };", "enum Bad3 : uint8 { A = 1 + };", "struct Bad4 { uint8 a; uint8 a; };",
                               f"struct {t.name} {{ uint8 zz; }};", "typedef nope X;", "struct Bad5 { uint8 a[1][]; };"))
            if call(w.cs.load, text, compiled=rng.random() < 0.5).__class__ is Err:
                ctx.ev("failed_loads")
            what += " " + text
        elif op == "endian":
            for inst in live:
                judge(inst, "before switch")
            w.cfg.endian = "<" if w.cfg.endian != "<" else rng.choice(">!")
            w.cs.endian = w.cfg.endian
            w.flips += 1
            add_probe(w)
            ctx.ev("endian_switches")
            what += f" to {w.cfg.endian}"
        elif op == "const":
            if "KA" not in w.cfg.consts:
                continue
            w.cfg.consts["KA"] = rng.randrange(5)
            if rng.random() < 0.5:
                w.cs.consts["KA"] = w.cfg.consts["KA"]
            else:
                w.cs.load(f"#define KA {w.cfg.consts['KA']}\n")
            add_probe(w)
            ctx.ev("constants_changed")
        elif op == "load":
            # more types, with names that exist in other worlds and the same number of fields as existing ones
            n = len(t.fields)
            text = (f"struct New{step} {{ " + " ".join(f"{rng.choice(('uint8', 'uint16', 'char', 'double', 'uint32'))} "
                    f"{rng.choice('abc')}{j}{rng.choice(('', '[2]', '[3]'))};" for j in range(n)) + " };\n"
                    f"enum NE{step} {{ NE{step}_A, NE{step}_B }};\ntypedef uint16 nt{step};\n")
            r = call(w.cs.load, text, compiled=rng.random() < 0.5, align=rng.random() < 0.5)
            ctx.ev("loads")
            what += " " + text
            if not isinstance(r, Err):
                o = call(w.cs.resolve(f"New{step}"))
                for f in o.__class__.__fields__:
                    v = getattr(o, f._name)
                    if isinstance(v, list):
                        v[0] = 7
        elif op == "add-field":
            if k == 0 or w.frozen or len([x for x in worlds if not x.frozen]) < 2:
                continue
            for inst in [x for x in live if x.w is w]:
                judge(inst, "before add_field")
                live.remove(inst)
            w.frozen = True
            for _ in range(rng.randint(1, 2)):
                call(T.add_field, f"late{step}", w.cs.resolve(rng.choice(("uint8", "uint32", "char"))))
            ctx.ev("fields_added_elsewhere")
        elif op == "array":
            # default arrays of the type itself
            if w.frozen:
                continue
            A = call(lambda: T[rng.randint(1, 3)]) if not isinstance(t, M.Ar) else None
            if isinstance(A, Err) or M.sizeof(t, w.cfg) is None:
                continue
            a = call(A.__default__)
            if isinstance(a, Err):
                ctx.fail("default-raised", d(what=what, raised=repr(a)))
                return
            z = [M.zero(t, w.cfg) for _ in range(A.num_entries)]
            at = M.Ar(t, "n", A.num_entries)
            got = canon(at, a)
            ctx.ev("array_defaults")
            ctx.check(got == z, "default-changed", lambda: d(what=what, expected=repr(z), got=repr(got)))
            live.append(Inst(w, at, A, a, z, f"default {t.name}[{A.num_entries}] of world {k} at step {step}"))
            live[-1].union = has_union(t)
            live[-1].clean = False
        elif op == "discard":
            if live and rng.random() < 0.7:
                live.pop(rng.randrange(len(live)))
            if rng.random() < 0.2:
                gc.collect()
            ctx.ev("discarded")
        else:
            call(T, nonexistent=1), call(T, *range(40)), call(lambda: w.cs.resolve("nope")), call(repr, T), call(lambda: T[2]), call(len, T)
        script.append(what)
        while len(live) > 7:
            live.pop(rng.randrange(len(live)))
        judge_all(what)
        if op not in ("mutate", "default", "dump", "discard") or step % 7 == 0:
            probe(what)
        if op in ("load", "fail-load", "add-field", "endian", "const", "kwmisuse"):
            signatures(what)
    probe("end")
    signatures("end")
    ctx.key(M.program_text(root), repr(script))
    ctx.sample(d())


def has_dynamic_union(t):
    found = []

    def see(x, d):
        if isinstance(x, M.St) and x.union and M.sizeof(x, M.Cfg()) is None:
            found.append(1)

    M.walk(t, see)
    return bool(found)


def w_twins(ctx, i):
    """Two objects of everything, one of them disturbed in every mutable place, the other compared after each disturbance."""
    rng = ctx.rng
    prof = gen.Profile(depth=3, fields=(1, 5), nested=0.5, array=0.5, dyn=0.3, multidim=0.4, union=0.15, eof=0.1)
    g = gen.Gen(rng, prof)
    root = g.struct(3, top=True, root=True)
    cfg = g.cfg
    comp = rng.random() < 0.5
    w = open_world(ctx, root, cfg, comp)
    if w is None:
        return
    T = w.cs.resolve(root.name)
    x = gen.gen_data(rng, root, cfg)
    for how in ("default", "parse"):
        if how == "parse" and x is None:
            continue
        mk = (lambda: T()) if how == "default" else (lambda: T(x[0]))
        a, b = call(mk), call(mk)
        if isinstance(a, Err) or isinstance(b, Err):
            if how == "parse":
                ctx.fail("parse", {**lib.describe(root, cfg), "raised": repr(a)})
            continue
        va = canon(root, a)
        want = copy.deepcopy(va)
        ctx.check(canon(root, b) == want, "twins-differ", lambda: {**lib.describe(root, cfg)})
        inst = Inst(w, root, T, a, va, how)
        det = {**lib.describe(root, cfg), "mode": mode_name(comp), "start": how}
        script = []
        for _ in range(12):
            r = mutate(ctx, inst)
            if r is None or r == "drop":
                continue
            script.append(r)
            ctx.ev("twin_mutations")
            got = canon(root, inst.obj)
            ctx.check(got == inst.val, "own-value", lambda: {**det, "history": script, "expected": repr(inst.val), "got": repr(got)})
            for o, nm in ((b, "twin"), (call(mk), "fresh")):
                got = canon(root, o) if not isinstance(o, Err) else o
                ctx.check(got == want, "other-instance-changed", lambda: {**det, "history": script, "who": nm, "expected": repr(want), "got": repr(got)})
    ctx.key("twins", M.program_text(root), comp, x and x[0])


TEXTS = [
    "struct A@ {{ uint8 a; struct {{ uint16 b; uint8 c; }} n; union {{ uint32 d; uint8 e[4]; }}; }};",
    "struct B@ {{ uint8 n; char s[n]; uint16 w[n * KA + 1]; struct {{ uint8 q; }} in[2]; }};",
    "union U@ {{ uint32 a; struct {{ uint16 l; uint16 h; }}; uint8 r[4]; }};",
    "enum {{ X@_A, X@_B = 7, X@_C }};\nstruct C@ {{ uint8 v[X@_C]; }};",
    "enum E@ : uint16 {{ E@_A = 1, E@_B, E@_C = KA + 4 }};\nstruct D@ {{ E@ e; E@ f[2]; E@ g : 4; }};",
    "flag F@ : uint8 {{ F@_A, F@_B, F@_C = 0x20 }};\nstruct G@ {{ F@ e; F@ f[2]; uint8 x : 3; uint8 y : 5; }};",
    "typedef struct {{ uint8 x; uint16 y; }} T@, *PT@;\nstruct H@ {{ T@ a; PT@ p; T@ b[2]; char *s; }};",
    "typedef uint32 W@;\ntypedef W@ V@[3];\nstruct I@ {{ V@ v; W@ w; }};",
    "#define KA {k}\n", "#define K@ (KA + {k})\n#define L@ \"text\"\n",
    "struct J@ {{ uleb128 l; wchar s[]; uint16 z[]; }};", "struct K@_ {{ uint8 a; uint32 b; uint16 c; uint64 d; char e[3]; uint24 f; }};",
    "struct L@_ {{ uint16 a : 3; uint16 b : 13; int32 c : 31; int32 d : 1; }};", "struct M@ {{ uint8 t; char rest[EOF]; }};",
    "struct {{ uint8 a; uint16 b; }} N@;", "struct O@ {{ struct {{ struct {{ uint8 deep; }}; uint8 mid; }}; uint8 top; }};",
    "struct P@ {{ uint8 c; uint8 d[c & 3][2]; float f; double g; float16 h; }};", "struct Q@ {{ Q@ *next; void *p; uint8 n; }};",
    "enum R@ {{ R@_A = sizeof(uint32), R@_B }};\nunion S@ {{ R@ r; uint8 b; }};",
    "#define LA@ {k}\n#define LB@ 9\n$look@ = {{'LA@': 'a{k}', 'LB@': 'b'}}\n", "$names = {{'KA': {k}, 'KB': 'two'}}\nstruct Y@ {{ uint8 a; }};", "$names = {{'KB': {k}}}\n",
    "$K@: 1\nstruct Y@_ {{ uint8 a; }};", "struct Bad@ {{ uint8 a; nope b; }};\nstruct AfterBad@ {{ uint8 c; }};", "struct Bad@ {{ uint8 a : 9; }};",
    "#[nocompile]\nstruct Fl@ {{ uint8 a; uint32 b; }};", "#[nocompile]\nstruct Fl@ {{ nope a; }};", "struct Ff@ {{ uint8 a; }};\n#[nocompile]\n", "#[other, nocompile]\nenum Fe@ {{ A }};\nstruct Fg@ {{ uint16 b; }}; #[x]\n",
    "struct Z@ {{ uint8 a[1 + ]; }};", "struct A@a {{ uint8 a; }};\nstruct A@a {{ uint8 a; uint8 b; }};", "struct V@_ {{ }};\nstruct V@b {{ V@_ e; uint8 x; }};",
]
SERVER = None
SMALL = ("uint8", "int16", "uint24", "uint32", "char", "double", "wchar", "uleb128", "int48", "uint128", "DWORD", "__u16", "void", "float16")
EXPRS = ("KA", "KA * 2 + a", "(KA + ", "sizeof(uint16)", "a & 3 | KA << 1", "~KA", "-a + -KA", "1 +", "nope", "sizeof(A0)", "b ^ a", "a / b")


def chunk(rng, side_no, n):
    """(text, tag) of one more definition."""
    if rng.random() < 0.35:
        g = gen.Gen(rng, gen.Profile(depth=2, fields=(1, 5), nested=0.4, anon=0.4, array=0.4, dyn=0.4, union=0.2, eof=0.05, ptr=0.15))
        g.n = 100 * n
        g.cfg.consts = {"KA": 1, "KB": 2}
        root = g.program()
        return "".join((M.enum_text(t) if isinstance(t, M.En) else M.struct_text(t) + ";") + "\n" for t in M.deps(root))
    t = rng.choice(TEXTS)
    return t.format(k=rng.randrange(4)).replace("@", str(n)) if "{{" in t or "{k}" in t else t.replace("@", str(n))


def w_replay(ctx, i):
    """Random histories over several cstruct objects; everything observed must be what a clean process observes that only did what
    was done to that object."""
    global SERVER
    from . import clean

    if SERVER is None:
        SERVER = clean.Clean()
    rng = ctx.rng
    sides = []
    scripts, answers = [], []
    kept = []
    history = []

    def do(k, op):
        r = sides[k].do(op)
        scripts[k].append(op)
        answers[k].append(r)
        history.append((k, *op))
        return r

    def types(k):
        return [n for n in sides[k].cs.typedefs if n not in BASE] or ["uint8"]

    for k in range(rng.randint(2, 3)):
        sides.append(clean.Side())
        scripts.append([])
        answers.append([])
        do(k, ("new", rng.choice("<>!=@"), rng.choice(gen.PTRS)))
        do(k, ("const", "KA", rng.randrange(4)))
        do(k, ("const", "KB", 2))
    serial = [0] * len(sides)
    for step in range(rng.randint(15, 45)):
        k = rng.randrange(len(sides))
        side = sides[k]
        op = rng.choice(("load", "load", "load", "parse", "parse", "parse", "parse", "default", "default", "layout", "names", "stub", "hexdump", "dumpvalue", "expr", "equal", "assign",
                         "deref", "arrayparse", "kwargs", "endian", "const", "typedef", "pointer", "addfield", "custom", "replace", "disturb", "disturb", "disturb", "same-load"))
        t = rng.choice(types(k)) if rng.random() < 0.85 else rng.choice(SMALL)
        data = rng.choice((rng.randbytes(rng.randrange(40)), bytes(rng.randrange(40)), bytes(rng.choice((0, 1, 2, 3, 0x41, 0xFF)) for _ in range(60))))
        ctx.ev("replay_operations")
        T = call(side.cs.resolve, t)
        if not isinstance(T, Err) and endless(T):
            continue
        if op == "load":
            serial[k] += 1
            text = chunk(rng, k, serial[k])
            r = do(k, ("load", text, rng.random() < 0.6, rng.random() < 0.4, 0))
            if r.startswith("raised"):
                ctx.ev("replay_failed_loads")
        elif op == "same-load":
            # what another object already has, under another configuration
            other = [o for o in history if o[1] == "load" and o[0] != k]
            if other:
                do(k, (*rng.choice(other)[1:3], rng.random() < 0.6, rng.random() < 0.4, 0))
        elif op == "parse":
            do(k, ("parse", t, data, rng.randrange(4)))
        elif op == "arrayparse":
            do(k, ("arrayparse", t, rng.choice((0, 1, 2, 3)), data))
        elif op in ("default", "layout"):
            do(k, (op, t))
        elif op in ("names", "stub"):
            do(k, (op,))
        elif op in ("hexdump", "dumpvalue", "deref"):
            do(k, (op, t, data))
        elif op == "expr":
            do(k, ("expr", rng.choice(EXPRS), {"a": rng.randrange(9), "b": rng.randrange(1, 4)}))
        elif op == "equal":
            do(k, ("equal", t, data, data if rng.random() < 0.5 else rng.randbytes(len(data))))
        elif op == "assign":
            do(k, ("assign", t, data, rng.randrange(6), rng.choice((0, 1, 255, 70000, b"x", [1, 2], "s"))))
        elif op == "kwargs":
            do(k, ("kwargs", t, rng.randrange(6), rng.choice((0, 1, 200, b"xy", [3, 4]))))
        elif op == "endian":
            do(k, ("endian", rng.choice("<>!=@")))
        elif op == "const":
            do(k, ("const", rng.choice(("KA", "KB", "KC")), rng.randrange(4)))
        elif op == "typedef":
            do(k, ("typedef", f"td{step}", t))
        elif op == "replace":
            own = [n for n in types(k) if n.startswith(("td", "W", "V"))]
            if own:
                # used under its old meaning, then under its new one
                n = rng.choice(own)
                do(k, ("parse", n, data, 2))
                if not do(k, ("replace", n, rng.choice([t, "uint16", "uint32", *own[:1]]))).startswith("raised"):
                    ctx.ev("replay_replaced")
                T = call(side.cs.resolve, n)
                if not isinstance(T, Err) and not endless(T):
                    do(k, ("parse", n, data, 0))
        elif op == "pointer":
            do(k, ("pointer", rng.choice(gen.PTRS)))
        elif op == "addfield":
            do(k, ("addfield", t, f"late{step}", rng.choice(SMALL)))
        elif op == "custom":
            do(k, ("custom", f"cu{step}", rng.randrange(1, 5), rng.choice((1, 2, 4))))
        else:
            # what leaves traces when state is shared; not part of any script
            ctx.ev("replay_disturbances")
            T = call(side.cs.resolve, t)
            if isinstance(T, Err):
                continue
            how = rng.randrange(6)
            o = call(T) if how < 2 else call(T, data)
            history.append((k, "disturb", t, how, data))
            if not isinstance(o, Err):
                kept.append(o)
                scramble(rng, o, 0)
            if how == 3:
                call(T, FaultStream(data, rng.randrange(5)))
            elif how == 4:
                a = call(lambda: T[rng.randrange(1, 4)].__default__())
                if isinstance(a, list):
                    kept.append(a)
                    scramble(rng, a, 0)
                    call(a.append, 5)
            elif how == 5 and isinstance(o, list):
                o.clear()
            if kept and rng.random() < 0.3:
                scramble(rng, rng.choice(kept), 0)
            del kept[:-6]
    for k in range(len(sides)):
        for t in types(k):
            do(k, ("layout", t))
            do(k, ("default", t))
        do(k, ("names",))
        do(k, ("stub",))
        # the same again, after everything that happened
        for op in [o for o in scripts[k] if o[0] in ("parse", "expr", "deref")][-6:]:
            do(k, op)
    for k in range(len(sides)):
        ref = SERVER.ask(scripts[k])
        if ref is None or len(ref) != len(scripts[k]) or None in ref:
            raise RuntimeError("the clean process gave no answer")
        ctx.ev("replayed_scripts")
        for op, a, b in zip(scripts[k], answers[k], ref):
            if op[0] in clean.STRUCTURAL:
                ctx.ev("replay_structural")
            else:
                ctx.ev("replay_probes")
                ctx.ev("replay_raised" if b.startswith("raised") else "replay_values")
            if not ctx.check(a == b, "differs-from-clean-process", lambda: {"object": k, "operation": op, "expected": b[:1500], "got": a[:1500], "history": history}):
                break
    ctx.key("replay", repr(history))


BASE = set(cstruct().typedefs)


def least(T):
    """The least number of bytes a value takes."""
    from dissect.cstruct import Structure, Union
    from dissect.cstruct.types import BaseArray, Pointer

    if issubclass(T, BaseArray):
        n = T.num_entries
        return least(T.type) * (n if isinstance(n, int) else 1 if T.null_terminated else 0)
    if issubclass(T, Structure):
        fs = [0 if f.bits else least(f.type) for f in T.__fields__]
        return max(fs, default=0) if issubclass(T, Union) else sum(fs)
    if issubclass(T, Pointer):
        return 1
    if T.__name__.startswith("cu") or T.size == 0:
        return 0
    return T.size or 1


def endless(T):
    """Has an array of any number of elements that may take no bytes: reads until memory runs out."""
    from dissect.cstruct import Structure
    from dissect.cstruct.types import BaseArray, Pointer

    if issubclass(T, Pointer):
        return endless(T.type) if not issubclass(T.type, Structure) else False
    if issubclass(T, BaseArray):
        return not isinstance(T.num_entries, int) and least(T.type) == 0 or endless(T.type)
    return issubclass(T, Structure) and any(endless(f.type) for f in T.__fields__)


INTS = {type(call(cstruct().resolve(n), bytes(16))) for n in ("uint8", "int16", "uint24", "uint32", "int64", "uint128")}


def scramble(rng, o, depth):
    """Change an instance in place wherever it can be changed."""
    if depth > 4:
        return
    if isinstance(o, list):
        for j, x in enumerate(o):
            if type(x) in (int, *INTS) and rng.random() < 0.7:
                call(o.__setitem__, j, x ^ 1)
            else:
                scramble(rng, x, depth + 1)
        if rng.random() < 0.2:
            call(o.append, 9)
        return
    for f in getattr(o.__class__, "__fields__", ()) or ():
        x = call(getattr, o, f._name)
        if isinstance(x, list) or hasattr(x.__class__, "__fields__"):
            scramble(rng, x, depth + 1)
        elif rng.random() < 0.6:
            call(setattr, o, f._name, rng.choice((1, 0, 7, b"z", None)))


WORKLOADS = {
    "replay": (w_replay, 700, 9000),
    "twins": (w_twins, 2500, 40000),
    "history": (w_history, 1200, 16000),
}
