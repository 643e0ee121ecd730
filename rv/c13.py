"""C13 definition text: comments, white space, order and load() splits do not change what is defined; aliases and resolve errors."""
from __future__ import annotations

import re

from . import gen, lib
from . import model as M
from .boot import cstruct
from .common import MODES, Err, call, canon, masked, mode_name

PID = "C13"
ANCHORS = ["parser.py", "cstruct.py"]
RULE = ("A case is a program of several definitions (structures in every declaration form, unions, enums, flags, anonymous enums, typedefs, constants, "
        "flags like #[nocompile], keyword-like names) as tokens, rendered plainly and again with comments and white space at token boundaries, in "
        "another dependency-respecting order, or split over load() calls; the type tables, constants, layout signatures and parse results must be equal, and "
        "equal to the model.  Alias histories run against a dictionary model.  Non-trivial: both renderings loaded and were compared; "
        "distinct by text.")
ASSUMPTIONS = ["no insertion inside array brackets or on #define lines", "types are not called enum or flag", "alias chains of up to 9 links (longer ones may also be "
               "reported as a resolve error)", "generated __anonymous_N__ names are compared without their number when the order changes"]
REQUIRED = ["rewritten", "reordered", "split_loads", "comments", "line_comments", "multiline_comments", "tricky_comments", "crlf", "tabs", "keyword_names", "typedef_struct",
            "multi_names", "nameless_struct", "elaborated", "enum_bodies", "anonymous_enums", "defines", "string_constants", "multiword_types",
            "parse_compared", "alias_ops", "alias_redeclared_same", "alias_redeclared_other", "alias_cycles", "alias_unknown", "builtin_aliases", "unknown_in_definition",
            "compact", "nocompile", "typedef_scalars", "typedef_pointers", "typedef_arrays", "between_every_pair"]

KEYWORDY = {
    "f": ["f", "struct_", "union", "enum_", "flag", "typedef", "defines", "sizeof_", "EOF_", "unsigned_", "_", "__x", "int", "uint32_", "struct", "structs", "a", "A", "NULL_"],
    "S": ["S", "struct_", "union_", "enumS", "flags", "typedef_", "s", "_S", "__struct__", "unsignedS", "uint8x", "Struct", "UNION"],
    "E": ["E", "enum_", "flag_", "structE", "e", "_E", "Enum", "FLAG"],
}

COMMENTS = ["/**/", "/* c */", "/***/", "/* * / */", "/*//*/", "/* ; */", "/* } */", "/* { */", "/* struct X { int a; }; */", "/* a, b */", "/* = 5 */", "/* [3] */",
            "/* : 4 */", "/* don't */", "/* \"quoted */", "/* #define X 1 */", "/*\n*/", "/* a\n b\n c */", "/*\n * doc ; {\n */", "/* typedef */", "/*\t*/",
            "/* enum { A } ; */", "/* \\ */", "/* 日本 */", "/* ' \" */", "/*\r\n*/"]
LINE = ["//\n", "// c\n", "// don't\n", "// \"\n", "// }\n", "// { ;\n", "// /* not open\n", "// */\n", "//// x\n", "// struct A { int x; };\n", "// a = 1,\n", "// #define Q 2\n",
        "// trailing \\ \n", "// crlf\r\n", "// [1]\n", "//struct\n"]
SPACE = [" ", "  ", "\t", "\n", "\n\n", "\r\n", " \t ", "\n    ", "\f", "\v", "\n\r\n"]

MUST, MAY, LINEBREAK = 1, 0, 2


class Item:
    """One definition: tokens, names it defines, names it needs."""

    def __init__(self, toks, defines, needs, solid=False):
        self.toks, self.defines, self.needs, self.solid = toks, defines, needs, solid


def split_expr(text):
    return re.findall(r"0[xX][0-9a-fA-F]+|\w+|<<|>>|\S", text)


class Render:
    """Builds items for a program from a generator's types."""

    def __init__(self, ctx, g):
        self.ctx, self.rng, self.g = ctx, ctx.rng, g
        self.scalar_alias = {}   # model scalar name -> user typedef names
        self.extra_names = {}    # struct name -> other names bound to it

    def type_tokens(self, t):
        rng = self.rng
        if isinstance(t, M.St):
            if t.top and t.name:
                names = [t.name, *self.extra_names.get(t.name, [])]
                nm = rng.choice(names)
                if rng.random() < 0.15:
                    self.ctx.ev("elaborated")
                    return ["union" if t.union else "struct", nm], {nm}
                return [nm], {nm}
            toks, needs = self.body(t)
            head = ["union" if t.union else "struct"] + ([t.name] if t.name else [])
            return head + toks, needs
        if isinstance(t, M.En):
            return [t.name], {t.name}
        own = self.scalar_alias.get(t.name)
        if own and rng.random() < 0.4:
            nm = rng.choice(own)
            return [nm], {nm}
        if rng.random() < 0.35:
            al = [a for a, x in M.ALIASES.items() if x == t.name]
            if al:
                nm = rng.choice(al)
                if " " in nm:
                    self.ctx.ev("multiword_types")
                return nm.split(" "), set()
        return [t.name], set()

    def body(self, st):
        toks, needs = ["{"], set()
        for f in st.fields:
            t = f.t
            dims = []
            while isinstance(t, M.Ar):
                dims.append(f"[{M.dim_text(t)}]")
                if t.form == "e" or t.text is not None:
                    needs |= {d for d in re.findall(r"[A-Za-z_]\w*", M.dim_text(t)) if d in self.g.cfg.consts}
                t = t.elem
            stars = []
            while isinstance(t, M.Pt):
                stars.append("*")
                t = t.target
            tt, nd = self.type_tokens(t)
            needs |= nd
            toks += tt
            if f.name:
                toks += [*stars, f.name, *dims]
                if f.bits:
                    toks += [":", str(f.bits)]
            toks.append(";")
        toks.append("}")
        return toks, needs

    def struct_item(self, st):
        rng, ev = self.rng, self.ctx.ev
        kw = "union" if st.union else "struct"
        body, needs = self.body(st)
        form = rng.choice("aaabcdefg")
        n = st.name
        extra = [f"{n}_{x}" for x in rng.sample(["t", "alias", "T", "struct"], rng.randint(1, 3))]
        pre = []
        if rng.random() < 0.08:
            pre = ["#[nocompile]"] if rng.random() < 0.7 else ["#[compile]"]
            ev("nocompile")
        if form == "a":
            toks, defs = [kw, n, *body, ";"], [n]
        elif form == "b":
            toks, defs = [kw, *body, n, ";"], [n]
            ev("nameless_struct")
        elif form == "c":
            toks, defs = ["typedef", kw, *body, n, ";"], [n]
            ev("typedef_struct")
        elif form == "d":
            toks, defs = ["typedef", kw, f"_{n}", *body, n, ";"], [f"_{n}", n]
            self.extra_names[n] = [f"_{n}"]
            ev("typedef_struct")
        else:
            names = extra if form in "ef" else [n, *extra]
            lst = []
            for x in names:
                lst += [x, ","]
            lst.pop()
            head = {"e": [kw, n], "f": ["typedef", kw, n], "g": [kw] if rng.random() < 0.5 else ["typedef", kw]}[form]
            toks, defs = [*head, *body, *lst, ";"], [n, *extra]
            self.extra_names[n] = extra
            ev("multi_names")
        return Item(pre + toks, defs, needs)

    def enum_item(self, e):
        rng = self.rng
        kw = "flag" if e.flag else "enum"
        toks = [kw, *([e.name] if e.name else [])]
        if e.base.name != "uint32" or rng.random() < 0.5:
            al = [a for a, x in M.ALIASES.items() if x == e.base.name]
            toks += [":", *(rng.choice(al).split(" ") if al and rng.random() < 0.4 else [e.base.name])]
        toks.append("{")
        needs = set()
        for k, (n, x) in enumerate(e.raw):
            toks.append(n)
            if x is not None:
                if x.lstrip("-").isdigit() and rng.random() < 0.5:
                    v = int(x)
                    x = rng.choice((x, f"{v} + 0", f"({v - 1} + 1)", f"1 * {v}", f"({x})", f"{v}|0" if v >= 0 else x))
                toks += ["=", *split_expr(x)]
            if k < len(e.raw) - 1 or rng.random() < 0.3:
                toks.append(",")
        toks += ["}", ";"]
        self.ctx.ev("enum_bodies")
        return Item(toks, [e.name] if e.name else [n for n, _ in e.raw], needs)


def gap_kind(a, b):
    if (a[-1].isalnum() or a[-1] == "_") and (b[0].isalnum() or b[0] == "_"):
        return MUST
    return MAY


def plain(items, rng, compact):
    """Conventional rendering; compact leaves out what may be left out."""
    out = []
    for it in items:
        if it.solid:
            if out and not out[-1].endswith("\n"):
                out.append("\n")
            out.append(it.toks[0])
            continue
        s = it.toks[0]
        enum = it.toks[0] in ("enum", "flag")
        for a, b in zip(it.toks, it.toks[1:]):
            k = gap_kind(a, b)
            if k == MUST or not compact or (enum and a in ("enum", "flag")) or a in ("-", "~") and b in ("-", "~"):
                tight = b in (";", ",") or b[0] == "[" or a in ("*",)
                if k == MUST or not tight:
                    s += "\n    " if a in ("{", ";") and not enum and not compact else " "
            s += b
        out.append(s + "\n")
    return "".join(out)


def insertion(ctx, must, must_space_after=False):
    rng, ev = ctx.rng, ctx.ev
    parts = []
    for _ in range(rng.choice((1, 1, 1, 2, 3))):
        k = rng.random()
        if k < 0.4:
            c = rng.choice(COMMENTS)
            ev("comments")
            if "\n" in c:
                ev("multiline_comments")
            if any(x in c for x in "{};#'\""):
                ev("tricky_comments")
        elif k < 0.65:
            c = rng.choice(LINE)
            ev("line_comments")
            if "\r\n" in c:
                ev("crlf")
        else:
            c = rng.choice(SPACE)
            if "\t" in c:
                ev("tabs")
            if "\r\n" in c:
                ev("crlf")
        parts.append(c)
    return "".join(parts)


def noisy(ctx, items, p, compact):
    """The plain rendering's gaps, with insertions."""
    rng = ctx.rng
    out = [insertion(ctx, False) if rng.random() < p else ""]
    for it in items:
        if it.solid:
            if out and not "".join(out[-2:]).endswith("\n"):
                out.append("\n")
            out.append(it.toks[0])
            if rng.random() < p:
                out.append(insertion(ctx, False))
            continue
        out.append(it.toks[0])
        enum = it.toks[0] in ("enum", "flag")
        for a, b in zip(it.toks, it.toks[1:]):
            k = gap_kind(a, b)
            base = " " if (k == MUST or not compact or (enum and a in ("enum", "flag"))) and not (
                k == MAY and (b in (";", ",") or b[0] == "[" or a == "*")) else ""
            if rng.random() < p:
                ins = insertion(ctx, k == MUST)
                # before, after or instead of the white space that is there: a comment or space separates as well
                base = rng.choice((ins + base, base + ins, ins if not (enum and a in ("enum", "flag")) else base + ins))
                ctx.ev("insertions")
            out.append(base + b)
        if rng.random() < p:
            out.append(insertion(ctx, False))
        out.append("\n")
    if rng.random() < 0.3:
        out.append(rng.choice(("// the end", "/* end */", "", "  ", "\n\n", "//")))
    return "".join(out)


def sig(cs, t, seen=None, norm=True):
    """Structural signature of a library type."""
    from dissect.cstruct.types import Array, BaseArray, Enum, Flag, Pointer, Structure, Union

    seen = seen or ()
    if t in seen:
        return ("rec", len(seen) - seen.index(t))
    nm = t.__name__
    if norm:
        nm = re.sub(r"__anonymous_\d+__", "__anonymous__", nm)
    if issubclass(t, (Enum, Flag)):
        return ("enum", issubclass(t, Flag), nm, t.type.__name__, t.size, t.alignment, tuple((n, int(v)) for n, v in t.__members__.items()))
    if issubclass(t, Pointer):
        return ("ptr", nm, t.size, t.alignment, sig(cs, t.type, seen, norm))
    if issubclass(t, BaseArray) or issubclass(t, Array):
        n = t.num_entries
        n = n if n is None or isinstance(n, int) else getattr(n, "expression", repr(n))
        return ("arr", n, t.size, t.alignment, bool(t.dynamic), bool(t.null_terminated), sig(cs, t.type, seen, norm))
    if issubclass(t, Structure):
        fs = tuple((re.sub(r"__anonymous_\d+__", "__anonymous__", f._name) if norm else f._name, f.name is None, f.bits, f.offset, f.alignment,
                    sig(cs, f.type, (*seen, t), norm)) for f in t.__fields__)
        return ("st", issubclass(t, Union), nm, t.size, t.alignment, bool(t.dynamic), bool(t.__align__), bool(t.__compiled__), tuple(t.fields), fs)
    return ("sc", nm, t.size, t.alignment)


def snapshot(cs, builtin, norm=True):
    types = {n: sig(cs, cs.resolve(v), norm=norm) for n, v in cs.typedefs.items() if n not in builtin}
    consts = {n: (type(v).__name__ if not isinstance(v, int) else "int", v if not isinstance(v, int) else int(v)) for n, v in cs.consts.items()}
    return types, consts


def alias_classes(cs, builtin):
    """Which names share one type object."""
    groups = {}
    for n, v in cs.typedefs.items():
        groups.setdefault(id(cs.resolve(v)), set()).add(n)
    return {frozenset(x for x in g) for g in groups.values()}


def diff(a, b):
    out = []
    for n in sorted(set(a) | set(b)):
        if a.get(n) != b.get(n):
            out.append((n, repr(a.get(n))[:600], repr(b.get(n))[:600]))
    return out[:4]


def make_program(ctx, nroots=None):
    rng = ctx.rng
    prof = gen.Profile(mixed_align=0.0, depth=rng.choice((1, 2)), eof=0.0, nested=0.35, fields=(1, 5), leb=0.05, enum=0.2, leb_enum=0.05)
    g = gen.Gen(rng, prof)
    if rng.random() < 0.6:
        g.cfg.consts = {"KA": rng.randrange(4), "KB": 2}
    if rng.random() < 0.7:
        ctx.ev("keyword_names")

        def name(p):
            g.n += 1
            return f"{rng.choice(KEYWORDY.get(p, [p]))}{g.n}"

        g.name = name
    align = g.align
    roots = []
    for _ in range(nroots or rng.randint(1, 4)):
        roots.append(g.struct(prof.depth, top=True, root=True))
        if roots[-1] not in g.structs:
            g.structs.append(roots[-1])
    return g, roots, align


def items_of(ctx, g, roots):
    rng = ctx.rng
    r = Render(ctx, g)
    items = []
    for k, v in g.cfg.consts.items():
        items.append(Item([f"#define {k} {rng.choice((str(v), hex(v), f'({v})', f'{v} + 0'))}\n"], [k], set(), True))
        ctx.ev("defines")
    if rng.random() < 0.3:
        s = rng.choice(('"text // not a comment"', "'/* neither */'", '"a;b{c}"', "b'bytes'", '"plain"'))
        items.append(Item([f"#define KSTR {s}\n"], ["KSTR"], set(), True))
        ctx.ev("string_constants")
    for _ in range(rng.randint(0, 3)):
        base = M.SC[rng.choice(gen.STD_INTS + ["uint24", "char", "double"])]
        nm = f"{rng.choice(('my', 'T', 'struct_t', 'enumt', 'typedef_'))}{g.n}x{len(items)}"
        own = r.scalar_alias.get(base.name)
        src = rng.choice(own) if own and rng.random() < 0.5 else base.name
        al = [a for a, x in M.ALIASES.items() if x == base.name]
        if src == base.name and al and rng.random() < 0.3:
            src = rng.choice(al)
        items.append(Item(["typedef", *src.split(" "), nm, ";"], [nm], {src} if own and src in own else set()))
        r.scalar_alias.setdefault(base.name, []).append(nm)
        ctx.ev("typedef_scalars")
    if rng.random() < 0.3:
        nm = f"PT{g.n}"
        items.append(Item(["typedef", "uint16", "*", nm, ";"], [nm], set()))
        ctx.ev("typedef_pointers")
    if rng.random() < 0.3:
        nm = f"AT{g.n}"
        items.append(Item(["typedef", "uint16", nm, "[3]", *(["[2]"] if rng.random() < 0.5 else []), ";"], [nm], set()))
        ctx.ev("typedef_arrays")
    if rng.random() < 0.25:
        e = M.En(None, M.SC["uint32"], rng.random() < 0.3, [], [(f"ANON{g.n}_A", None), (f"ANON{g.n}_B", "7"), (f"ANON{g.n}_C", None)])
        items.append(r.enum_item(e))
        ctx.ev("anonymous_enums")
    done = []
    for root in roots:
        for t in M.deps(root):
            if t in done:
                continue
            done.append(t)
            items.append(r.enum_item(t) if isinstance(t, M.En) else r.struct_item(t))
    return items


def topo(rng, items):
    """A random order in which everything is defined before it is used."""
    names = {n for it in items for n in it.defines}
    left = list(items)
    out, have = [], set()
    while left:
        ready = [it for it in left if not (it.needs & names) - have]
        it = rng.choice(ready)
        left.remove(it)
        out.append(it)
        have |= set(it.defines)
    return out


def w_rewrite(ctx, i):
    rng = ctx.rng
    g, roots, align = make_program(ctx)
    items = items_of(ctx, g, roots)
    compact = rng.random() < 0.35
    if compact:
        ctx.ev("compact")
    base = plain(items, rng, compact)
    comp = rng.random() < 0.6
    cfg = g.cfg

    def fresh():
        return cstruct(endian=cfg.endian, pointer=cfg.ptr.name)

    builtin = set(fresh().typedefs)
    cs0 = fresh()
    d = lambda **kw: {"plain": base, "align": align, "compiled": comp, **kw}  # noqa: E731
    r = call(cs0.load, base, compiled=comp, align=align)
    if isinstance(r, Err):
        ctx.fail("definition-rejected", d(raised=repr(r)))
        return
    s0 = snapshot(cs0, builtin)
    a0 = alias_classes(cs0, builtin)
    want = {n for it in items if not it.solid and it.toks[0] not in ("enum", "flag") for n in it.defines}
    ctx.check(want <= set(s0[0]), "names-missing", lambda: d(missing=sorted(want - set(s0[0]))))
    for it in items:
        if len(it.defines) > 1 and it.toks[0] not in ("enum", "flag"):
            ts = {id(call(cs0.resolve, n)) for n in it.defines}
            ctx.check(len(ts) == 1, "names-of-one-struct-differ", lambda: d(names=it.defines))
    variants = []
    for _ in range(3):
        variants.append(("rewritten", [noisy(ctx, items, rng.choice((0.1, 0.4, 1.0)), compact)]))
    order = topo(rng, items)
    variants.append(("reordered", [plain(order, rng, compact)]))
    variants.append(("reordered", [noisy(ctx, topo(rng, items), 0.3, compact)]))
    order = topo(rng, items)
    cuts = sorted(rng.sample(range(len(order) + 1), min(len(order) + 1, rng.randint(1, 3))))
    parts = [order[a:b] for a, b in zip([0, *cuts], [*cuts, len(order)])]
    variants.append(("split_loads", [plain(x, rng, compact) if rng.random() < 0.5 else noisy(ctx, x, 0.3, compact) for x in parts]))
    loaded = [("plain", cs0)]
    for kind, texts in variants:
        cs = fresh()
        err = None
        for t in texts:
            err = call(cs.load, t, compiled=comp, align=align)
            if isinstance(err, Err):
                break
        ctx.ev(kind)
        if isinstance(err, Err):
            ctx.fail(kind + "-rejected", d(texts=texts, raised=repr(err)))
            continue
        s = snapshot(cs, builtin)
        ctx.check(s[0] == s0[0], kind + "-types", lambda: d(texts=texts, differ=diff(s0[0], s[0])))
        ctx.check(s[1] == s0[1], kind + "-constants", lambda: d(texts=texts, differ=diff(s0[1], s[1])))
        if kind == "rewritten":
            ctx.check(list(cs.typedefs) == list(cs0.typedefs), kind + "-names", lambda: d(texts=texts))
            ctx.check(snapshot(cs, builtin, norm=False) == snapshot(cs0, builtin, norm=False), kind + "-anonymous-names", lambda: d(texts=texts))
        a = alias_classes(cs, builtin)
        ctx.check(a == a0, kind + "-aliases", lambda: d(texts=texts, differ=repr(a ^ a0)[:600]))
        loaded.append((kind, cs))
        ctx.key(kind, *texts, align, comp)
    # behaviour: every loaded variant parses like the model
    for root in roots:
        for _ in range(2):
            gd = gen.gen_data(rng, root, cfg)
            if gd is None:
                continue
            data, v, end, q = gd
            mask = bytes(q.mask[:end]) + bytes(max(0, end - len(q.mask)))
            for kind, cs in loaded:
                ctx.ev("parse_compared")
                o = call(lambda: cs.resolve(root.name)(data))
                got = canon(root, o) if not isinstance(o, Err) else o
                ctx.check(got == v, "behaviour", lambda: d(variant=kind, root=root.name, input=data, expected=repr(v), got=repr(got)))
                if not isinstance(o, Err) and not isinstance(got, Err):
                    w = call(o.dumps)
                    ctx.check(w == masked(data, end, mask), "behaviour-dump", lambda: d(variant=kind, root=root.name, input=data, got=repr(w)))
    ctx.sample(d(variant=variants[0][1]))


def w_every_gap(ctx, i):
    """One small program, one insertion, at every single token boundary in turn."""
    rng = ctx.rng
    g, roots, align = make_program(ctx, 1)
    items = items_of(ctx, g, roots)
    cfg = g.cfg
    fresh = lambda: cstruct(endian=cfg.endian, pointer=cfg.ptr.name)  # noqa: E731
    builtin = set(fresh().typedefs)
    cs0 = fresh()
    base = plain(items, rng, False)
    if isinstance(call(cs0.load, base, align=align, compiled=False), Err):
        ctx.fail("definition-rejected", {"plain": base})
        return
    s0 = snapshot(cs0, builtin, norm=False)
    ins = rng.choice([rng.choice(COMMENTS), rng.choice(LINE), rng.choice(SPACE)])
    gaps = [(a, b) for a, it in enumerate(items) if not it.solid for b in range(len(it.toks))]
    rng.shuffle(gaps)
    for a, b in gaps[:40]:
        out = []
        for x, it in enumerate(items):
            if it.solid:
                out.append(it.toks[0])
                continue
            for y, tok in enumerate(it.toks):
                if y:
                    enum = it.toks[0] in ("enum", "flag")
                    out.append(" " if gap_kind(it.toks[y - 1], tok) == MUST or (enum and y == 1) or y % 2 and tok[0] != "[" else "")
                if (x, y) == (a, b):
                    out.append(ins)
                out.append(tok)
            out.append("\n")
        text = "".join(out)
        cs = fresh()
        r = call(cs.load, text, align=align, compiled=False)
        ctx.ev("between_every_pair")
        if isinstance(r, Err):
            ctx.fail("one-gap-rejected", {"plain": base, "text": text, "inserted": ins, "before": items[a].toks[b], "raised": repr(r)})
            continue
        s = snapshot(cs, builtin, norm=False)
        ctx.check(s == s0, "one-gap", lambda: {"plain": base, "text": text, "inserted": ins, "before": items[a].toks[b],
                                               "differ": diff(s0[0], s[0]) + diff(s0[1], s[1])})
        ctx.key("gap", text)


class Aliases:
    """Dictionary model of the alias table: name -> ('t', type key) or ('a', name)."""

    def __init__(self):
        self.d = {}

    def resolve(self, n, links=0):
        seen = []
        while True:
            if n not in self.d:
                return None, len(seen)
            if n in seen:
                return None, 99
            seen.append(n)
            k, x = self.d[n]
            if k == "t":
                return x, len(seen)
            n = x


def w_alias(ctx, i):
    from dissect.cstruct.exceptions import ResolveError

    rng = ctx.rng
    cs = cstruct()
    m = Aliases()
    objs = {}
    for n in list(cs.typedefs):
        v = cs.typedefs[n]
        if not isinstance(v, str):
            m.d[n] = ("t", id(v))
            objs[id(v)] = v
        else:
            m.d[n] = ("a", v)
    script = []
    d = lambda **kw: {"history": script, **kw}  # noqa: E731
    own = [f"n{k}" for k in range(10)]
    types = ["uint32", "DWORD", "uint16", "char", "unsigned int", "int8", "WORD", "double", "void", "uint128"]
    for st in ("A", "B"):
        cs.load(f"struct {st} {{ uint8 x; }};" if rng.random() < 0.5 else f"enum {st} : uint8 {{ {st}_1 }};")
        v = cs.typedefs[st]
        m.d[st] = ("t", id(v))
        objs[id(v)] = v
    types += ["A", "B"]

    def probe(n):
        want, links = m.resolve(n)
        got = call(cs.resolve, n)
        ctx.ev("alias_probes")
        if want is None:
            ctx.ev("alias_cycles" if links >= 99 else "alias_unknown")
            ctx.check(isinstance(got, Err) and got.isa(ResolveError), "unresolvable", lambda: d(name=n, got=repr(got)))
            g2 = call(getattr, cs, n)
            ctx.check(isinstance(g2, Err), "unresolvable-attribute", lambda: d(name=n, got=repr(g2)))
        elif links <= 9 or not isinstance(got, Err):
            ctx.check(got is objs[want], "resolve", lambda: d(name=n, expected=repr(objs[want]), got=repr(got), links=links))
            if links <= 9:
                ctx.check(call(getattr, cs, n) is objs[want] or n in cs.consts, "attribute", lambda: d(name=n))
        else:
            ctx.check(got.isa(ResolveError), "long-chain", lambda: d(name=n, got=repr(got)))

    for step in range(rng.randint(5, 30)):
        ctx.ev("alias_ops")
        op = rng.randrange(7)
        n = rng.choice(own)
        tgt = rng.choice(own) if rng.random() < 0.55 else rng.choice(types)
        if rng.random() < 0.03:
            tgt = "nowhere"
        if op in (0, 1, 2):
            if op == 2:
                # typedef binds the resolved type at once
                script.append(f"typedef {tgt} {n};")
                want, links = m.resolve(tgt)
                r = call(cs.load, f"typedef {tgt} {n};")
                new = ("t", want)
                if want is None:
                    ctx.check(isinstance(r, Err) and r.isa(ResolveError), "typedef-unknown", lambda: d(got=repr(r)))
                    ctx.ev("unknown_in_definition")
                    continue
                if links > 9:
                    if isinstance(r, Err):
                        continue
            else:
                script.append(f"add_type({n!r}, {tgt!r})")
                r = call(cs.add_type, n, tgt)
                new = ("a", tgt)
            if n not in m.d:
                ctx.check(not isinstance(r, Err), "new-alias-rejected", lambda: d(got=repr(r)))
                m.d[n] = new
            else:
                old, l1 = m.resolve(n)
                nw, l2 = (new[1], 1) if new[0] == "t" else m.resolve(tgt)
                if old is None or nw is None or max(l1, l2) > 9:
                    # cannot be the same target: not accepted (the very same text again may be)
                    if isinstance(r, Err):
                        pass
                    elif m.d[n] == new:
                        pass
                    else:
                        ctx.check(max(l1, l2) > 9 and old == nw and old is not None, "unresolvable-redeclaration-accepted", lambda: d(name=n))
                        m.d[n] = new
                elif old == nw:
                    ctx.ev("alias_redeclared_same")
                    ctx.check(not isinstance(r, Err), "same-target-rejected", lambda: d(name=n, got=repr(r)))
                    m.d[n] = new
                else:
                    ctx.ev("alias_redeclared_other")
                    ctx.check(isinstance(r, Err), "other-target-accepted", lambda: d(name=n, target=tgt))
                    if not isinstance(r, Err):
                        return
        elif op == 3:
            script.append(f"add_type({n!r}, {tgt!r}, replace=True)")
            r = call(cs.add_type, n, tgt, replace=True)
            ctx.check(not isinstance(r, Err), "replace-rejected", lambda: d(got=repr(r)))
            m.d[n] = ("a", tgt)
        elif op == 4:
            # a definition that uses the name
            want, links = m.resolve(n)
            nm = f"U{step}"
            script.append(f"struct {nm} {{ {n} x; }};")
            r = call(cs.load, f"struct {nm} {{ {n} x; }};", compiled=rng.random() < 0.5)
            if want is None:
                ctx.ev("unknown_in_definition")
                ctx.check(isinstance(r, Err) and r.isa(ResolveError), "unknown-type-used", lambda: d(got=repr(r)))
            elif links <= 9:
                ctx.check(not isinstance(r, Err) and cs.resolve(nm).__fields__[0].type is objs[want], "bound-to-other", lambda: d(got=repr(r)))
        elif op == 5:
            # a structure under a name that is taken
            k = rng.choice(["A", "B"])
            before = cs.resolve(k)
            sig0 = sig(cs, before)
            script.append(f"struct {k} {{ uint16 y; }};")
            r = call(cs.load, f"struct {k} {{ uint16 y; }};")
            ctx.check(isinstance(r, Err) and cs.resolve(k) is before and sig(cs, before) == sig0, "struct-redeclared", lambda: d(got=repr(r)))
        for x in rng.sample(own + types + ["nowhere", "uint3", "uint32_", "Uint32", "unsigned", "unsigned uint32", ""], 4):
            probe(x)
    for x in own:
        probe(x)
    ctx.key("alias", repr(script))


def w_builtin(ctx, i):
    """The alias table: every synonym is the very same type, as written in a definition as well."""
    from dissect.cstruct.exceptions import ResolveError

    names = list(M.ALIASES.items())
    alias, target = names[i % len(names)]
    rng = ctx.rng
    cs = cstruct()
    t = cs.resolve(target)
    d = lambda **kw: {"alias": alias, "target": target, **kw}  # noqa: E731
    ctx.ev("builtin_aliases")
    ctx.check(call(cs.resolve, alias) is t, "builtin", lambda: d(got=repr(call(cs.resolve, alias))))
    gap = rng.choice([" ", "  ", "\t", "\n", " /* x */ ", "// y\n"])
    text = f"typedef {gap.join(alias.split(' '))} mine;\nstruct S {{ {gap.join(alias.split(' '))} a; {alias} *p; {target} b; mine c; {alias} d[2]; }};\n"
    text += f"typedef {target} mine;\n"
    r = call(cs.load, text, compiled=i % 2 == 0)
    if isinstance(r, Err):
        ctx.fail("builtin-definition", d(text=text, raised=repr(r)))
        return
    fs = cs.S.fields
    ctx.check(fs["a"].type is t and fs["b"].type is t and fs["c"].type is t and fs["d"].type.type is t and fs["p"].type.type is t and cs.mine is t,
              "builtin-in-definition", lambda: d(text=text, got=repr(cs.S.__fields__)))
    other = rng.choice([x for x in M.SC if x != target])
    r = call(cs.load, f"typedef {other} mine;")
    ctx.check(isinstance(r, Err) and cs.mine is t, "other-target-accepted", lambda: d(other=other, got=repr(r)))
    word = rng.choice([w for w in ("long", "unsigned", "signed", "struct_") if f"{w} {target}" not in M.ALIASES])
    r = call(cs.load, f"typedef {word} {target} bad;" if rng.random() < 0.5 else f"struct Q {{ {alias}x a; }};")
    ctx.ev("unknown_in_definition")
    ctx.check(isinstance(r, Err) and (r.isa(ResolveError)), "unknown-type-accepted", lambda: d(got=repr(r)))
    # cycles of every length, entered at every point, behind a tail
    n = 1 + i % 12
    for k in range(n):
        cs.add_type(f"c{k}", f"c{(k + 1) % n}")
    for k in range(n):
        r = call(cs.resolve, f"c{k}")
        ctx.ev("alias_cycles")
        ctx.check(isinstance(r, Err) and r.isa(ResolveError), "cycle", lambda: d(n=n, got=repr(r)))
    cs.add_type("tail", "c0")
    for text in ("struct Z { tail a; };", "typedef tail q;", "struct Z2 { uint8 n; tail a[n]; };", "struct Z3 { tail *a; };"):
        r = call(cs.load, text)
        ctx.check(isinstance(r, Err) and r.isa(ResolveError), "cycle-in-definition", lambda: d(text=text, n=n, got=repr(r)))
    ctx.check(call(cs.load, "struct after { uint8 a; };") is cs and len(cs.after) == 1, "after-error", d)
    ctx.key("builtin", alias, gap, n)


WORKLOADS = {
    "builtin": (w_builtin, lambda: 2 * len(M.ALIASES), lambda: 24 * len(M.ALIASES)),
    "alias": (w_alias, 1500, 20000),
    "gaps": (w_every_gap, 500, 6000),
    "rewrite": (w_rewrite, 900, 14000),
}
