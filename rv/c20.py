"""C20 type stubs: the generated text is read back with Python's own parser and every declaration is compared with what the cstruct object provides."""
from __future__ import annotations

import ast
import contextlib
import io
import keyword
import logging
import os
import re
import shutil
import sys
import tempfile
from pathlib import Path

from . import c13, gen
from . import model as M
from .boot import cstruct
from .common import Err, call

PID = "C20"
ANCHORS = ["tools/stubgen.py", "cstruct.py"]
RULE = ("A case is a set of definitions (random programs in every declaration form with nested, anonymous and inline structures, unions, enums, flags, anonymous enums, typedef "
        "chains, arrays and pointers, constants of every literal kind, custom types and API-made types; every built-in type under every declarator; every Python keyword, soft keyword "
        "and some builtin names in every place a name may stand; Python modules with several cstruct objects, through generate_file_stub and the command line).  The stub is compiled "
        "and its syntax tree walked: declared names against the names the text defines, each class against its type's kind, members and fields, each hint "
        "resolved to a type that must be the field's own, constants evaluated.  Non-trivial: the stub was read back; distinct by stub text.")
ASSUMPTIONS = ["names Python can't declare (keywords, not identifiers) are left out; a type without another name is then hinted by its kind",
               "helper classes for structures without a global name (__anonymous_N__, inline ones) may be declared", "array lengths aren't part of a hint",
               "folded members may appear as __init__ arguments (fixed by the existing tests)", "no constant has the name of a type", "names aren't __debug__",
               "enum members named like attributes of the class can't be loaded", "scope effects that type checkers see when a user's name hides one of the stub's (Literal, overload) aren't judged"]
REQUIRED = ["replaced", "stubs", "classes", "enums", "flags", "unions", "fields", "folded", "inline", "anon_helpers", "aliases", "alias_chain", "array_alias", "pointer_alias", "consts",
            "const_int", "const_float", "const_str", "const_bytes", "const_other", "anonymous_enum_consts", "keyword_names", "keyword_types", "custom_types", "builtins", "init_overloads",
            "files", "file_cstructs", "cli", "cli_dir", "empty", "chararray", "wchararray", "pointer_hint", "array_hint", "nested_hint", "extended", "api_types", "self_fields",
            "prefixed", "unprefixed", "no_cstruct_files"]

SPECIALS = sorted(set(keyword.kwlist) | set(keyword.softkwlist) | {"print", "int_", "list", "dict", "object", "property", "bytes", "memoryview", "bytearray", "BinaryIO", "__init__", "__x", "__x__", "_",
                                                                  "fh", "cstruct_", "Enum_", "__cs__", "annotations", "super", "id", "len", "str", "set", "range", "map", "self", "__self", "cls"})
LITERALS = ["0", "1", "-1", "0x7fffffffffffffff", "1234567890123456789012345678901234567890", "(1 << 3)", "1.5", "-2.5e-7", "1e300", '"text"', '"it\'s \\\\ a \\"q\\""', "'x'", '"a\\nb\\tc"', "b'bytes'",
            'b"\\x00\\xff"', '""', "(1, 2)", "[1, 'a']", "{1: 2}", "None", "True", "1j", "'日本'", "0b101", "0xff"]


def ok_name(n):
    return n.isidentifier() and not keyword.iskeyword(n)


def stubgen():
    from dissect.cstruct.tools import stubgen as s

    return s


_builtin = None


def builtin():
    global _builtin
    if _builtin is None:
        c = cstruct()
        _builtin = (frozenset(c.typedefs), frozenset(c.consts))
    return _builtin


class Bad(Exception):
    def __init__(self, kind, **detail):
        self.kind, self.detail = kind, detail


class Reader:
    """Walks one cstruct class of a stub against the object it was made for."""

    def __init__(self, ctx, cs, node, cls_name, prefix):
        self.ctx, self.cs, self.node, self.cls_name, self.prefix = ctx, cs, node, cls_name, prefix
        self.classes = {}
        self.aliases = {}
        self.consts = {}
        self.used = set()
        self.checked = set()

    def bad(self, kind, **d):
        raise Bad(kind, **d)

    def module_name(self, n):
        """X of the library's own X, under the prefix in force."""
        if self.prefix:
            p = self.prefix.rstrip(".")
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == p:
                return n.attr
            return None
        return n.id if isinstance(n, ast.Name) else None

    def read(self, expected_types, expected_consts):
        ev = self.ctx.ev
        cs, node = self.cs, self.node
        if len(node.bases) != 1 or self.module_name(node.bases[0]) != "cstruct":
            self.bad("base-of-cstruct", base=ast.unparse(node.bases[0]) if node.bases else None)
        order = []
        for st in node.body:
            if isinstance(st, ast.ClassDef):
                self.declare(st.name)
                self.classes[st.name] = st
                order.append(st.name)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.declare(st.target.id)
                if isinstance(st.annotation, ast.Name) and st.annotation.id == "TypeAlias":
                    self.aliases[st.target.id] = st.value
                    order.append(st.target.id)
                elif isinstance(st.annotation, ast.Subscript) and isinstance(st.annotation.value, ast.Name) and st.annotation.value.id == "Literal":
                    self.consts[st.target.id] = st.annotation.slice
                else:
                    self.bad("declaration", line=ast.unparse(st))
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant) and st.value.value is ...:
                pass
            else:
                self.bad("declaration", line=ast.unparse(st)[:200])
        bt, bc = builtin()
        # built-in names that were given another meaning are the user's
        self.bt = bt = bt - set(expected_types or ())
        # constants
        want = {n for n in cs.consts if n not in bc and ok_name(n)}
        if expected_consts is not None and not {n for n in expected_consts if ok_name(n)} <= want:
            self.bad("constant-not-provided", missing=sorted(set(expected_consts) - set(cs.consts)))
        if set(self.consts) != want:
            self.bad("constants", missing=sorted(want - set(self.consts)), invented=sorted(set(self.consts) - want))
        for n, v in self.consts.items():
            self.constant(n, v, cs.consts[n])
        # types
        want = set()
        for n, v in cs.typedefs.items():
            if n in bt or not ok_name(n):
                continue
            if not isinstance(call(cs.resolve, v), Err):
                want.add(n)
        if expected_types is not None:
            miss = {n for n in expected_types if ok_name(n)} - want
            if miss:
                self.bad("type-not-provided", missing=sorted(miss))
        have = {n for n in (*self.classes, *self.aliases) if not (n in self.classes and n not in cs.typedefs and self.helper(n))}
        if have != want:
            self.bad("names", missing=sorted(want - have), invented=sorted(have - want))
        for n, c in self.classes.items():
            if n in want:
                T = cs.resolve(n)
                self.klass(c, T, n)
        for n, v in self.aliases.items():
            ev("aliases")
            self.hint(v, cs.resolve(n), (), f"alias {n}", True)
            T = cs.resolve(n)
            k = self.kind(T)
            if k == "array":
                ev("array_alias")
            if k == "pointer":
                ev("pointer_alias")
            if isinstance(cs.typedefs[n], str) and cs.typedefs[n] not in bt:
                ev("alias_chain")
        idle = [n for n in self.classes if n not in want and n not in self.used]
        if idle:
            self.bad("unused-class", names=idle)

    def declare(self, n):
        if n in self.classes or n in self.aliases or n in self.consts:
            self.bad("declared-twice", name=n)

    def helper(self, n):
        return n.startswith("__anonymous_") or keyword.iskeyword(n.rstrip("_"))

    def kind(self, T):
        from dissect.cstruct import types as t

        if issubclass(T, t.Pointer):
            return "pointer"
        if issubclass(T, t.BaseArray):
            return "array"
        if issubclass(T, t.Flag):
            return "flag"
        if issubclass(T, t.Enum):
            return "enum"
        if issubclass(T, t.Structure):
            return "struct"
        return "other"

    def constant(self, n, node, actual):
        from dissect.cstruct import types as t

        ev = self.ctx.ev
        ev("consts")
        if isinstance(actual, (t.Enum, t.Flag)):
            ev("anonymous_enum_consts")
            actual = actual.value
        try:
            got = ast.literal_eval(node)
        except ValueError:
            if isinstance(actual, float) and ast.unparse(node) == repr(actual):
                return
            if actual is ... and ast.unparse(node) in ("...", "Ellipsis"):
                return
            self.bad("constant-not-literal", name=n, text=ast.unparse(node), actual=repr(actual))
        ev({int: "const_int", float: "const_float", str: "const_str", bytes: "const_bytes"}.get(type(got), "const_other"))
        same = repr(got) == repr(actual) if isinstance(got, float) else got == actual and (type(got) is type(actual) or isinstance(actual, type(got)))
        if not same:
            self.bad("constant-value", name=n, stub=ast.unparse(node), actual=repr(actual))

    # -- classes

    def klass(self, node, T, where):
        from dissect.cstruct import types as t

        key = (id(node), id(T))
        if key in self.checked:
            return
        self.checked.add(key)
        self.ctx.ev("classes")
        if len(node.bases) != 1 or node.keywords or node.decorator_list:
            self.bad("class-bases", where=where)
        base = self.module_name(node.bases[0])
        k = self.kind(T)
        if k == "struct":
            want = "Union" if issubclass(T, t.Union) else "Structure"
            if want == "Union":
                self.ctx.ev("unions")
            if base != want:
                self.bad("kind", where=where, stub=ast.unparse(node.bases[0]), actual=want)
            self.struct(node, T, where)
        elif k in ("enum", "flag"):
            want = k.capitalize()
            self.ctx.ev(k + "s")
            if base != want:
                self.bad("kind", where=where, stub=ast.unparse(node.bases[0]), actual=want)
            self.enum(node, T, where)
        elif k == "other":
            if base not in [c.__name__ for c in T.__mro__[1:]]:
                self.bad("kind", where=where, stub=ast.unparse(node.bases[0]), actual=T.__base__.__name__)
            self.ctx.ev("custom_types")
        else:
            self.bad("kind", where=where, stub="class", actual=k)

    def enum(self, node, T, where):
        got = []
        for st in node.body:
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                got.append(st.targets[0].id)
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant) and st.value.value is ...:
                pass
            else:
                self.bad("enum-body", where=where, line=ast.unparse(st)[:200])
        want = [n for n in T.__members__ if ok_name(n)]
        if sorted(got) != sorted(want):
            self.bad("enum-members", where=where, stub=got, actual=want)

    def struct(self, node, T, where):
        ev = self.ctx.ev
        scope, hints, inits, nested = {}, {}, [], []
        for st in node.body:
            if isinstance(st, ast.ClassDef):
                scope[st.name] = st
                nested.append(st)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is None:
                n = st.target.id
                if n in hints:
                    self.bad("field-twice", where=where, name=n)
                hints[n] = st.annotation
                if n not in T.fields:
                    self.bad("field-invented", where=where, name=n, fields=list(T.fields))
                ev("fields")
                f = T.fields[n]
                if not any(f is x or (x._name == n and x.name is not None) for x in T.__fields__):
                    ev("folded")
                self.hint(st.annotation, f.type, (scope,), f"{where}.{n}", False)
            elif isinstance(st, ast.FunctionDef) and st.name == "__init__":
                inits.append(st)
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant) and st.value.value is ...:
                pass
            else:
                self.bad("struct-body", where=where, line=ast.unparse(st)[:200])
        want = {n for n in T.fields if ok_name(n)}
        if set(hints) != want:
            self.bad("fields", where=where, missing=sorted(want - set(hints)))
        for c in nested:
            if id(c) not in self.used:
                self.bad("unused-class", where=where, name=c.name)
        # construction from the fields, and from data
        ev("init_overloads")
        if "self" in T.fields:
            ev("self_fields")
        if len(inits) != 2 or any([ast.unparse(d) for d in f.decorator_list] != ["overload"] for f in inits):
            self.bad("init", where=where, inits=[ast.unparse(f)[:200] for f in inits])
        a = inits[0].args
        if a.vararg or a.kwarg or a.kwonlyargs:
            self.bad("init", where=where, init=ast.unparse(inits[0])[:300])
        args = [*a.posonlyargs, *a.args][1:]
        if [x.arg for x in args] != [n for n in T.fields if n in want] or len(a.defaults) != len(args):
            self.bad("init-arguments", where=where, arguments=[x.arg for x in args], fields=list(T.fields))
        for x in args:
            if ast.unparse(x.annotation) != f"{ast.unparse(hints[x.arg])} | None":
                self.bad("init-hint", where=where, argument=x.arg, hint=ast.unparse(x.annotation), field=ast.unparse(hints[x.arg]))
        b = inits[1].args
        if len(b.posonlyargs) + len(b.args) != 2:
            self.bad("init", where=where, init=ast.unparse(inits[1])[:300])

    # -- hints

    def hint(self, node, T, scopes, where, alias):
        """The hint must name exactly the type T."""
        from dissect.cstruct import types as t

        ev = self.ctx.ev
        text = ast.unparse(node)
        k = self.kind(T)
        wrong = lambda why="": self.bad("hint", where=where, stub=text, actual=repr(T), why=why)  # noqa: E731
        if isinstance(node, ast.Subscript):
            m = self.module_name(node.value)
            if m == "Pointer":
                if k != "pointer":
                    wrong("not a pointer")
                ev("pointer_hint")
            elif m == "Array":
                if k != "array" or issubclass(T, (t.CharArray, t.WcharArray)):
                    wrong("not a general array")
                ev("array_hint")
                if isinstance(node.slice, ast.Subscript):
                    ev("nested_hint")
            else:
                wrong("unknown generic")
            self.hint(node.slice, T.type, scopes, where, alias)
            return
        m = self.module_name(node)
        if m in ("CharArray", "WcharArray") and k == "array" and (self.prefix or not self.find(m, scopes, alias)):
            if not issubclass(T, getattr(t, m)):
                wrong()
            ev(m.lower())
            return
        if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name) and node.value.id == self.cls_name:
            n = node.attr
            if n in self.cs.typedefs:
                if n not in self.bt and n not in self.classes and n not in self.aliases:
                    wrong("not declared")
                if self.cs.resolve(n) is not T:
                    wrong("another type")
                return
            c = self.classes.get(n)
            if c is None:
                wrong("not declared")
            ev("anon_helpers")
            self.used.add(n)
            self.klass(c, T, f"{where}:{n}")
            return
        if isinstance(node, ast.Name):
            c = self.find(node.id, scopes, alias)
            if c is not None:
                if isinstance(c, ast.ClassDef):
                    self.used.add(id(c))
                    if node.id in self.classes and c is self.classes[node.id]:
                        self.used.add(node.id)
                        if node.id in self.cs.typedefs:
                            if self.cs.resolve(node.id) is not T:
                                wrong("another type")
                            return
                        ev("anon_helpers")
                    else:
                        ev("inline")
                    self.klass(c, T, f"{where}:{node.id}")
                    return
                if self.cs.resolve(node.id) is not T:
                    wrong("another type")
                return
        if m in ("Structure", "Union", "Enum", "Flag") and not alias:
            names = [n for n, v in self.cs.typedefs.items() if ok_name(n) and not isinstance(r := call(self.cs.resolve, v), Err) and r is T]
            if names or not issubclass(T, getattr(t, m)) or k not in ("struct", "enum", "flag"):
                wrong(f"has the names {names}")
            ev("keyword_types")
            return
        wrong("unresolved name")

    def find(self, n, scopes, alias):
        for s in scopes:
            if n in s:
                return s[n]
        if alias:
            return self.classes.get(n) or self.aliases.get(n)
        return None


def read_module(ctx, text, detail):
    """The syntax tree, after the compiler proper has accepted the text as well."""
    try:
        tree = ast.parse(text)
        compile(text, "<stub>", "exec", dont_inherit=True)
    except (SyntaxError, ValueError) as e:
        ctx.fail("invalid-python", {**detail, "error": str(e), "line": text.splitlines()[e.lineno - 1][:300] if isinstance(e, SyntaxError) and e.lineno and e.lineno <= len(text.splitlines()) else None})
        return None
    return tree


def judge(ctx, cs, detail, types=None, consts=None, prefix=None, cls_name=None):
    rng = ctx.rng
    prefix = rng.choice(("", "__cs__.", "__cs__.", "x.")) if prefix is None else prefix
    cls_name = cls_name or rng.choice(("cstruct", "_c_def", "_x"))
    if prefix:
        ctx.ev("prefixed")
    else:
        ctx.ev("unprefixed")
    before = (list(cs.typedefs), dict(cs.consts))
    text = call(stubgen().generate_cstruct_stub, cs, prefix, cls_name)
    detail = {**detail, "prefix": prefix, "class": cls_name}
    if isinstance(text, Err):
        ctx.fail("raised", {**detail, "raised": repr(text)})
        return
    ctx.check((list(cs.typedefs), dict(cs.consts)) == before, "object-changed", detail)
    tree = read_module(ctx, text, detail)
    if tree is None:
        return
    ctx.ev("stubs")
    ctx.key(text)
    if len(tree.body) != 1 or not isinstance(tree.body[0], ast.ClassDef) or tree.body[0].name != cls_name:
        ctx.fail("not-one-class", {**detail, "stub": text[:400]})
        return
    verdict(ctx, cs, tree.body[0], cls_name, prefix, types, consts, detail, text)
    ctx.sample({"stub": text[:300]})


def verdict(ctx, cs, node, cls_name, prefix, types, consts, detail, text):
    try:
        Reader(ctx, cs, node, cls_name, prefix).read(types, consts)
    except Bad as b:
        ctx.fail(b.kind, {**detail, **b.detail, "stub": text[:1500]})
        return False
    ctx.check(True, "stub")
    return True


# ---------------------------------------------------------------------------------------------------- random programs


def consts_text(ctx, n):
    out, names = [], []
    for k in range(n):
        nm = f"K{k}_{ctx.rng.choice('abc')}"
        out.append(f"#define {nm} {ctx.rng.choice(LITERALS)}\n")
        names.append(nm)
    return "".join(out), names


def extras(ctx, structs, enums, tag):
    """Aliases, arrays and pointers of what there is, as text; the names they define."""
    rng, ev = ctx.rng, ctx.ev
    out, names = [], []
    pool = [*structs, *enums, "uint8", "char", "wchar", "void", "unsigned long long", "uint16", "DWORD", "double"]
    own = []
    for k in range(rng.randrange(0, 6)):
        nm = f"X{tag}{k}"
        base = rng.choice(own + pool) if rng.random() < 0.6 else rng.choice(pool)
        form = rng.choice(("", "", "*", "**", "[3]", "[2][2]", "*[2]", "[]"))
        if base == "void" and form.startswith("["):
            form = "*"
        stars = form[:form.count("*")]
        dims = form[len(stars):]
        out.append(f"typedef {base} {stars}{nm}{dims};\n")
        names.append(nm)
        own.append(nm)
    for k in range(rng.randrange(0, 2)):
        nm = f"Y{tag}{k}"
        inner = rng.choice(("uint8 a;", "struct { uint8 q; } w; uint16 z;", "union { uint8 m; uint16 n; };", "char c[4]; wchar d[2];", "struct I { uint8 v; } i[2];"))
        form = rng.choice((f"{nm}[2]", f"*{nm}", f"{nm}[2][3]", f"**{nm}", f"*{nm}[4]", nm))
        out.append(f"typedef {rng.choice(('struct', 'union'))} {{ {inner} }} {form};\n")
        names.append(nm)
    return "".join(out), names, own


def w_programs(ctx, i):
    rng, ev = ctx.rng, ctx.ev
    g, roots, align = c13.make_program(ctx)
    items = c13.topo(rng, c13.items_of(ctx, g, roots))
    text = c13.plain(items, rng, rng.random() < 0.3)
    types = {n for it in items if not it.solid and not (it.toks[0] in ("enum", "flag") and it.toks[1] in ("{", ":")) for n in it.defines}
    consts = {n for it in items if it.solid or (it.toks[0] in ("enum", "flag") and it.toks[1] in ("{", ":")) for n in it.defines}
    structs = [n for it in items if it.toks[0] in ("struct", "union", "typedef") for n in it.defines if n[:1] in "S" and n in types]
    structs = [n for n in structs if n.isidentifier()]
    more, names, own = extras(ctx, [n for n in types if n.isidentifier() and not keyword.iskeyword(n)][:6], [], "a")
    ctext, cnames = consts_text(ctx, rng.choice((0, 0, 1, 2, 4)))
    text = ctext + text + more
    if names and rng.random() < 0.7:
        fs = "".join(f"    {rng.choice(own or names)} {rng.choice(('', '', '*'))}u{k}{rng.choice(('', '', '[2]'))};\n" for k in range(rng.randint(1, 4)))
        text += f"struct USES {{\n{fs}}};\n"
        types.add("USES")
    types |= set(names)
    consts |= set(cnames)
    cs = cstruct(endian=g.cfg.endian, pointer=g.cfg.ptr.name)
    detail = {"definition": text, "align": align}
    r = call(cs.load, text, compiled=rng.random() < 0.5, align=align)
    if isinstance(r, Err):
        # arrays of dynamic structures in typedefs, void elements: what can't be loaded has no stub
        ev("not_loaded")
        return
    if rng.random() < 0.25:
        extend(ctx, cs, types)
    if rng.random() < 0.2:
        api_types(ctx, cs, types, detail)
    judge(ctx, cs, detail, types, consts)


def extend(ctx, cs, types):
    rng = ctx.rng
    from dissect.cstruct.types import Structure

    c = [n for n in types if not isinstance(r := call(cs.resolve, n), Err) and isinstance(r, type) and issubclass(r, Structure) and ok_name(n) and not r.dynamic]
    if not c:
        return
    T = cs.resolve(rng.choice(sorted(c)))
    t = rng.choice((cs.uint8, cs.uint16[2], cs.char[3], cs.resolve(rng.choice(sorted(c)))))
    if t is T:
        t = cs.uint8
    r = call(T.add_field, "extra_field", t)
    if not isinstance(r, Err):
        ctx.ev("extended")


def api_types(ctx, cs, types, detail):
    from dissect.cstruct.types import BaseType, Field, Int, Packed

    rng = ctx.rng
    ctx.ev("api_types")

    class Custom(BaseType):
        @classmethod
        def _read(cls, stream, context=None):
            return stream.read(1)

    class Number(Int):
        pass

    k = rng.randrange(7)
    if k == 6:
        # names that come before the type's own
        st = rng.choice((lambda: cs._make_struct("api_later", [Field("x", cs.uint8)]), lambda: cs._make_enum("api_later", cs.uint8, {"P": 1}),
                         lambda: cs._make_flag("api_later", cs.uint8, {"P": 1}), lambda: cs._make_union("api_later", [Field("x", cs.uint8)])))()
        cs.add_type("api_first", st)
        if rng.random() < 0.5:
            cs.add_type("api_before", "api_first")
        cs.add_type("api_later", st)
        cs.add_type("api_after", rng.choice((st, "api_first", "api_later")))
        types |= {"api_first", "api_later", "api_after"}
        call(cs.load, "struct LATER { api_later a; api_first *b; };\n")
        types |= {"LATER"}
    elif k == 0:
        cs.add_custom_type("custom_t", Custom, rng.choice((None, 4)), 4)
        cs.add_type("custom_alias", "custom_t")
        types |= {"custom_t", "custom_alias"}
        call(cs.load, "struct CUSTOM { custom_t a; custom_t *b; custom_alias c[2]; };\ntypedef custom_t custom_u;\n")
        types |= {"CUSTOM", "custom_u"}
    elif k == 1:
        cs.add_custom_type("number_t", Number, 4, 4, signed=True)
        cs.add_custom_type("packed_t", Packed, 4, 4, packchar="I")
        types |= {"number_t", "packed_t"}
        call(cs.load, "struct NUM { number_t a; packed_t b[2]; };")
        types |= {"NUM"}
    elif k == 2:
        inner = cs._make_struct("api_inner", [Field("x", cs.uint8), Field("y", cs.uint16[2])])
        outer = cs._make_struct("api_outer", [Field("a", cs.uint8), Field("b", inner), Field("c", inner[2]), Field("d", cs._make_pointer(inner))])
        cs.add_type("api_outer", outer)
        types |= {"api_outer"}
    elif k == 3:
        cs.add_type("api_array", cs.uint32[4])
        cs.add_type("api_array2", cs.char[4][2])
        cs.add_type("api_pointer", cs._make_pointer(cs.wchar))
        cs.add_type("api_alias", "api_array")
        cs.add_type("api_alias2", "api_alias")
        cs.add_type("some name", "uint8")
        types |= {"api_alias2", "api_array", "api_array2", "api_pointer", "api_alias"}
    elif k == 4:
        cs.add_type("api_name", cs._make_struct("api_own", [Field("x", cs.uint8)]))
        cs.add_type("api_ename", cs._make_enum("api_eown", cs.uint8, {"P": 1}))
        call(cs.load, "struct OTHER { api_name a; api_name b[2]; api_ename c; };\ntypedef api_name api_third;\n")
        types |= {"api_name", "api_ename", "OTHER", "api_third"}
    else:
        cs.add_type("api_enum", cs._make_enum("api_enum", cs.uint8, {"P": 1, "Q": 2, "class": 3}))
        cs.add_type("api_enum_alias", "api_enum")
        cs.add_type("api_flag", cs._make_flag("api_flag", cs.uint16, {"R": 1}))
        types |= {"api_enum", "api_flag", "api_enum_alias"}
        cs.consts["API_TUPLE"] = (1, "a", b"b")
        cs.consts["API_NONE"] = None
        cs.consts["not valid"] = 1


def w_replaced(ctx, i):
    """Built-in names that were given another meaning are definitions of the user's."""
    from dissect.cstruct import Field

    rng = ctx.rng
    cs = cstruct()
    mk = [lambda n: cs._make_struct(n, [Field("x", cs.uint8), Field("y", cs.char[2])]), lambda n: cs._make_enum(n, cs.uint8, {"P": 1}), lambda n: cs.uint16[3],
          lambda n: cs._make_flag(n, cs.uint8, {"P": 1}), lambda n: cs._make_pointer(cs.uint8), lambda n: "uint64", lambda n: "u2", lambda n: cs.int16,
          lambda n: cs._make_union(n, [Field("x", cs.uint8)]), lambda n: "MINE"]
    log, types = ["struct MINE { uint8 q; };"], {"MINE"}
    cs.load(log[0])
    for n in rng.sample(["uint48", "int128", "BYTE", "ulong", "LONG32", "__u64", "QWORD", "u8", "uleb128", "unsigned __int32", "float16", "_DWORD", "wchar_t"], rng.randint(1, 5)):
        t = rng.choice(mk)(n if n.isidentifier() and rng.random() < 0.7 else f"other{len(log)}")
        log.append(f"add_type({n!r}, {t!r}, replace=True)")
        cs.add_type(n, t, replace=True)
        if cs.typedefs[n] != cstruct().typedefs[n]:
            types |= {n} if n.isidentifier() else set()
    mine = sorted(types)
    text = "struct REPL { %s };\ntypedef %s NEW;\ntypedef NEW *PNEW;\n" % (" ".join(f"{n} f{j}; {n} *g{j}; {n} h{j}[2];" for j, n in enumerate(mine)), rng.choice(mine))
    log.append(text)
    r = call(cs.load, text)
    if isinstance(r, Err):
        ctx.ev("not_loaded")
    else:
        types |= {"REPL", "NEW", "PNEW"}
    ctx.ev("replaced")
    judge(ctx, cs, {"history": log}, types)


# ---------------------------------------------------------------------------------------------------- exhaustive parts

DECLS = ["{t} f;", "{t} f[3];", "{t} f[2][3];", "{t} *f;", "{t} **f;", "{t} *f[2];", "{t} f[];", "uint8 n; {t} f[n];", "{t} f[EOF];", "struct {{ {t} g; }} f;", "struct {{ {t} g; }};", "union {{ {t} g; uint8 h; }};",
         "struct N {{ {t} g[2]; }} f[2];", "struct {{ {t} *g; }} *f;", "union {{ struct {{ {t} g; }} k; struct {{ {t} l; }}; }} f;"]


def builtin_names():
    return sorted(builtin()[0])


def w_builtins(ctx, i):
    t = builtin_names()[i]
    for k, decl in enumerate(DECLS):
        cs = cstruct()
        text = f"struct T {{ {decl.format(t=t)} }};\n"
        if k == 0:
            text += f"typedef {t} A;\ntypedef A B;\ntypedef {t} *C;\ntypedef {t} D[2];\ntypedef C E[2];\nstruct U {{ A a; B b; C c; D d; E e; A *f; D *g; C h[2]; }};\n"
        if isinstance(call(cs.load, text), Err):
            ctx.ev("not_loaded")
            continue
        ctx.ev("builtins")
        judge(ctx, cs, {"definition": text}, {"T", "A", "B", "C", "D", "E", "U"} if k == 0 else {"T"})


def name_places(n):
    """Texts with the name in one place each; names of types; of constants."""
    yield f"struct {n} {{ uint8 a; }};\nstruct T {{ {n} b; {n} c[2]; {n} *d; }};\n", {"T", n}, set()
    yield f"union {n} {{ uint8 a; }};\nunion T {{ {n} b; {n} *d; }};\n", {"T", n}, set()
    yield f"enum {n} : uint8 {{ A, B }};\nstruct T {{ {n} b; {n} c[2]; {n} *d; {n} e:4; }};\n", {"T", n}, set()
    yield f"flag {n} : uint16 {{ A, B }};\nstruct T {{ {n} b; {n} c[2]; }};\n", {"T", n}, set()
    yield f"typedef uint8 {n};\nstruct T {{ {n} b; {n} c[2]; {n} *d; }};\n", {"T", n}, set()
    yield f"typedef char *{n};\nstruct T {{ {n} b; {n} c[2]; }};\n", {"T", n}, set()
    yield f"typedef struct {{ uint8 a; }} {n};\nstruct T {{ {n} b; }};\n", {"T", n}, set()
    yield f"typedef struct {{ uint8 a; }} {n}, X1;\nstruct T {{ {n} b; X1 c; }};\n", {"T", n, "X1"}, set()
    yield f"typedef struct {{ uint8 a; }} X1, {n};\nstruct T {{ {n} b; X1 c; }};\n", {"T", n, "X1"}, set()
    yield f"typedef struct {n} {{ uint8 a; }} X1, X2;\nstruct T {{ X1 b; X2 c; X1 d[2]; X2 *e; }};\ntypedef X2 X3;\n", {"T", n, "X1", "X2", "X3"}, set()
    yield f"typedef struct {{ uint8 a; }} {n}[2];\nstruct T {{ {n} b; }};\n", {"T", n}, set()
    yield f"struct T {{ struct {n} {{ uint8 a; }} x; }};\n", {"T"}, set()
    yield f"struct T {{ struct {n} {{ uint8 a; }} x[2]; union {n} {{ uint16 b; }} *y; }};\n", {"T"}, set()
    yield f"struct T {{ uint8 {n}; uint16 b; }};\n", {"T"}, set()
    yield f"union T {{ uint8 {n}[2]; uint16 b; }};\n", {"T"}, set()
    yield f"struct T {{ struct {{ uint8 {n}; uint8 z; }}; uint16 b; }};\n", {"T"}, set()
    yield f"struct T {{ struct {{ uint8 q; }} {n}; uint16 b; }};\n", {"T"}, set()
    yield f"struct {n} {{ uint8 {n}; }};\nstruct T {{ {n} {n}; }};\n", {"T", n}, set()
    yield f"enum E {{ {n}, Z }};\n", {"E"}, set()
    yield f"enum E {{ {n} }};\n", {"E"}, set()
    yield f"flag E : uint8 {{ Z = 2, {n} }};\n", {"E"}, set()
    yield f"enum {{ {n}, Z = 9 }};\n", set(), {n, "Z"}
    yield f"#define {n} 5\nstruct T {{ uint8 a[3]; }};\n", {"T"}, {n}
    yield f'#define {n} "text"\n', set(), {n}


def w_names(ctx, i):
    n = SPECIALS[i % len(SPECIALS)]
    for k, (text, types, consts) in enumerate(name_places(n)):
        cs = cstruct()
        r = call(cs.load, text)
        if isinstance(r, Err) or not types <= set(cs.typedefs) or not consts <= set(cs.consts):
            ctx.ev("not_loaded")
            continue
        ctx.ev("keyword_names")
        # a name that hides the library's own only matters without a prefix
        judge(ctx, cs, {"definition": text}, types, consts, prefix="__cs__." if n != "__cs__" else "__lib__.")


SHAPES = [
    ("struct T { union { uint8 a; struct { uint8 b; struct { uint8 c; } d; }; }; };\n", {"T"}),
    ("struct T { struct { struct { struct { uint8 deep; }; } a; } b; };\n", {"T"}),
    ("struct T { struct I { uint8 a; } x; struct I { uint16 b; } y; };\n", {"T"}),
    ("struct I { uint8 q; };\nstruct T { struct I { uint16 a; } x; };\n", {"T", "I"}),
    ("struct I { uint8 q; };\nstruct T { struct I { uint16 a; } x; I y; };\n", {"T", "I"}),
    ("struct T { struct { uint8 a; } x; struct { uint16 b; } y; union { uint8 c; } z[2]; };\n", {"T"}),
    ("struct A { uint8 x; };\nstruct T { uint8 A; A b; };\n", {"A", "T"}),
    ("struct N { struct N *next; uint8 v; };\ntypedef N *PN;\n", {"N", "PN"}),
    ("struct T { uint8 self; uint8 __self; uint8 ____self; };\n", {"T"}),
    ("struct T { struct { uint8 self; }; };\n", {"T"}),
    ("typedef void *HANDLE;\ntypedef void VOIDX;\nstruct T { HANDLE h; VOIDX *y; };\n", {"T", "HANDLE", "VOIDX"}),
    ("struct T { };\nunion U { };\n", {"T", "U"}),
    ("struct T { struct { } e; uint8 a; };\n", {"T"}),
    ("enum E1 { A };\nenum E2 { A };\nstruct T { E1 a; E2 b; };\n", {"E1", "E2", "T"}),
    ("typedef struct { uint8 a; } *P;\ntypedef P PP[2];\nstruct T { P a; PP b; };\n", {"P", "PP", "T"}),
    ("typedef struct _S { uint8 a; } S;\ntypedef S *PS;\ntypedef PS *PPS;\nstruct T { S a; _S b; PS c; PPS d; PS e[2]; };\n", {"_S", "S", "PS", "PPS", "T"}),
    ("typedef struct { struct { uint8 a; } b[2]; } A[2];\ntypedef struct { uint8 a; } B[2];\n", {"A", "B"}),
    ("typedef union { uint8 a; struct { uint8 b; uint8 c; }; } U;\ntypedef U V;\ntypedef V W[2];\n", {"U", "V", "W"}),
    ("flag F { A, B };\ntypedef F G;\ntypedef G *H;\nstruct T { F a:1; G b:2; H c; };\n", {"F", "G", "H", "T"}),
    ("enum { A1, B1 = 7 };\nflag { C1, D1 };\nstruct T { uint8 a; };\n", {"T"}),
    ("struct T { int24 a; uint128 b; float16 c; uleb128 d; ileb128 e; uint32 f:3; unsigned long long g; wchar h[]; char i[EOF]; };\n", {"T"}),
    ("typedef char C;\ntypedef C D[3];\ntypedef wchar *E;\ntypedef D F[2];\nstruct T { C a; C b[2]; D c; D d[2]; E e; E f[2]; F g; wchar h[2][2]; };\n", {"C", "D", "E", "F", "T"}),
    ("struct { uint8 a; } x;\n", {"x"}),
    ("", set()),
    ("#define ONLY 1\n", set()),
    ("struct _c_def_ { uint8 a; };\nstruct T { _c_def_ a; };\n", {"_c_def_", "T"}),
]


def w_shapes(ctx, i):
    text, types = SHAPES[i]
    for compiled in (True, False):
        for align in (False, True):
            for prefix, name in (("", "cstruct"), ("__cs__.", "_c"), ("a.", "B_")):
                cs = cstruct()
                r = call(cs.load, text, compiled=compiled, align=align)
                if isinstance(r, Err):
                    ctx.ev("not_loaded")
                    continue
                if not text:
                    ctx.ev("empty")
                judge(ctx, cs, {"definition": text}, types, prefix=prefix, cls_name=name)


def w_constants(ctx, i):
    rng = ctx.rng
    cs = cstruct()
    text, names = consts_text(ctx, rng.randint(1, 12))
    if isinstance(call(cs.load, text), Err):
        ctx.ev("not_loaded")
        return
    extra = {}
    for k in range(rng.randrange(4)):
        extra[f"API{k}"] = rng.choice((rng.randint(-2**70, 2**70), rng.random() * 10 ** rng.randint(-300, 300), "".join(map(chr, rng.choices(range(1, 0x3000), k=5))), rng.randbytes(6), None, True, False,
                                       (1, (2, "x")), [b"a"], {"k": [1, None]}, "'\"\\", "\n\r\x00]", "# not a comment", 'a"""b', "{}", "%s"))
    cs.consts.update(extra)
    judge(ctx, cs, {"definition": text, "consts": repr(extra)}, set(), {*names, *extra})


# ---------------------------------------------------------------------------------------------------- files

MODULE = """from __future__ import annotations
from dissect.cstruct import cstruct
{imports}
{body}
"""


def module_text(ctx, names):
    rng = ctx.rng
    body = []
    for n in names:
        g, roots, align = c13.make_program(ctx, 1)
        items = c13.items_of(ctx, g, roots)
        text = c13.plain(items, rng, False)
        k = rng.randrange(3)
        lit = repr(text) if k else '"""\n' + text.replace("\\", "\\\\").replace('"', '\\"') + '"""'
        if k == 2:
            body.append(f"{n}_def = {lit}\n{n} = cstruct({g.cfg.endian!r})\n{n}.load({n}_def, align={align})")
        else:
            body.append(f"{n} = cstruct(endian={g.cfg.endian!r}).load({lit}, align={align})")
    other = rng.choice(("", "class Other:\n    pass\n", "x = 1\n", "def f(a: int) -> int:\n    return a\n", "cstructs = []\n"))
    return MODULE.format(imports=rng.choice(("", "import struct", "from dissect.cstruct import Structure, dumpstruct")), body="\n\n".join(body) + "\n" + other)


def read_file(ctx, text, mod, detail):
    """A whole stub file: imports, then a class and an alias for each cstruct object of the module."""
    tree = read_module(ctx, text, detail)
    if tree is None:
        return
    ctx.ev("files")
    ctx.key(text)
    from dissect.cstruct.cstruct import cstruct as C

    objs = {n: v for n, v in vars(mod).items() if isinstance(v, C)}
    classes, aliases, imported = {}, {}, {}
    for st in tree.body:
        if isinstance(st, ast.ImportFrom):
            for a in st.names:
                imported[a.asname or a.name] = f"{st.module}.{a.name}"
        elif isinstance(st, ast.Import):
            for a in st.names:
                imported[a.asname or a.name] = a.name
        elif isinstance(st, ast.ClassDef) and st.name not in classes:
            classes[st.name] = st
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and isinstance(st.annotation, ast.Name) and st.annotation.id == "TypeAlias" and st.target.id not in aliases:
            aliases[st.target.id] = ast.unparse(st.value)
        else:
            ctx.fail("file-declaration", {**detail, "line": ast.unparse(st)[:300]})
            return
    ctx.check(aliases == {n: f"_{n}" for n in objs}, "file-names", lambda: {**detail, "stub": aliases, "actual": sorted(objs)})
    ctx.check(set(classes) == {f"_{n}" for n in objs}, "file-classes", lambda: {**detail, "stub": sorted(classes), "actual": sorted(objs)})
    ctx.check(imported.get("__cs__") == "dissect.cstruct" and {"TypeAlias", "overload", "Literal", "BinaryIO"} <= set(imported), "file-imports", lambda: {**detail, "imports": imported})
    for n, cs in objs.items():
        if f"_{n}" in classes:
            ctx.ev("file_cstructs")
            verdict(ctx, cs, classes[f"_{n}"], f"_{n}", "__cs__.", None, None, {**detail, "object": n}, text)


def load_again(path):
    import importlib.util

    spec = importlib.util.spec_from_file_location(path.stem, path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="rv-c20-")
    keep = sys.dont_write_bytecode
    sys.dont_write_bytecode = True
    try:
        yield Path(d)
    finally:
        sys.dont_write_bytecode = keep
        shutil.rmtree(d, ignore_errors=True)


NAMES = ["c_def", "c", "my_cstruct", "cs", "CSTRUCT", "_private", "x1", "structs", "Literal_", "cstruct_obj"]


def w_files(ctx, i):
    rng, ev = ctx.rng, ctx.ev
    with scratch() as d:
        names = rng.sample(NAMES, rng.choice((1, 1, 2, 3)))
        text = module_text(ctx, names)
        if rng.random() < 0.15:
            text += f"\nagain = {names[0]}\n"
        path = d / f"{rng.choice(('defs', 'c_test', 'mod'))}.py"
        path.write_text(text)
        detail = {"module": text[:3000]}
        if isinstance(r := call(load_again, path), Err):
            ev("not_loaded")
            return
        mod = r
        if i % 3:
            out = call(stubgen().generate_file_stub, path, rng.choice((d, path)))
            if isinstance(out, Err):
                ctx.fail("raised", {**detail, "raised": repr(out)})
                return
            read_file(ctx, out, mod, detail)
            return
        # the command line, on a file or a directory with other files in it
        whole = rng.random() < 0.5
        argv = ["cstruct-stubify", str(d if whole else path)] + (["-v"] if rng.random() < 0.3 else [])
        if whole:
            (d / "sub").mkdir()
            (d / "sub" / "other.py").write_text(text)
            (d / "plain.py").write_text("x = 1\n")
            (d / "broken.py").write_text("def (:\n")
            (d / "none.py").write_text("from dissect.cstruct import cstruct\ny = 2\n")
            (d / "notes.txt").write_text("cstruct")
            ev("cli_dir")
        keep, sys.argv = sys.argv, argv
        old = logging.root.handlers[:], logging.root.level, logging.root.manager.disable
        logging.disable(logging.CRITICAL)
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                r = call(stubgen().main)
        finally:
            sys.argv = keep
            logging.root.handlers[:], logging.root.level = old[0], old[1]
            logging.disable(old[2])
        if isinstance(r, Err):
            ctx.fail("raised", {**detail, "argv": argv, "raised": repr(r)})
            return
        ev("cli")
        made = sorted(str(p.relative_to(d)) for p in d.rglob("*.pyi"))
        want = sorted([path.with_suffix(".pyi").name, *([os.path.join("sub", "other.pyi")] if whole else [])])
        if not ctx.check(made == want, "stub-files", lambda: {**detail, "made": made, "expected": want}):
            return
        for p in want:
            read_file(ctx, (d / p).read_text(), mod, {**detail, "file": p})
        if whole:
            ev("no_cstruct_files")
        ctx.check((d / path.name).read_text() == text, "source-changed", detail)


QUICK_FACTOR = 3
WORKLOADS = {
    "replaced": (w_replaced, 120, 3000),
    "programs": (w_programs, 1500, 200000),
    "shapes": (w_shapes, lambda: len(SHAPES), lambda: len(SHAPES)),
    "builtins": (w_builtins, lambda: len(builtin_names()), lambda: len(builtin_names())),
    "names": (w_names, lambda: len(SPECIALS), lambda: len(SPECIALS)),
    "constants": (w_constants, 600, 60000),
    "files": (w_files, 150, 15000),
}
EXHAUSTIVE = "every built-in type name under 15 declarators and 8 alias forms; every Python keyword and soft keyword in 24 places of a definition"
