"""A process in which nothing happened before: replays the structural operations of one cstruct object and answers single probes.

`Clean().ask(script)` sends a script of operations to a fresh interpreter that has only imported the package; that forks a child
for the script, and the child forks once more for every run of probes, which are done there in the opposite order.
"""
from __future__ import annotations

import contextlib
import copy
import gc
import io
import os
import pickle
import re
import struct
import subprocess
import sys

STRUCTURAL = ("new", "load", "endian", "const", "typedef", "replace", "pointer", "addfield", "custom")


def outcome(fn, *a, **k):
    try:
        r = fn(*a, **k)
    except Exception as e:  # noqa: BLE001
        return f"raised {type(e).__name__}: " + re.sub(r"0x[0-9a-f]{9,}", "ADDR", str(e))[:300]
    return re.sub(r"object at 0x[0-9a-f]+", "object", r if isinstance(r, str) else repr(r))


def type_text(T, depth=0):
    """Everything about a type, with all names."""
    from dissect.cstruct import Enum, Flag, Structure
    from dissect.cstruct.types import BaseArray, Pointer

    out = f"{T.__name__}|{T.__qualname__}|{T.size}|{T.alignment}|{T.dynamic}"
    if depth > 6:
        return out
    if issubclass(T, BaseArray):
        n = T.num_entries
        return out + f"[{n if n is None or isinstance(n, int) else n.expression}]({type_text(T.type, depth + 1)})"
    if issubclass(T, Pointer):
        return out + f"*{T.type.__name__}"
    if issubclass(T, (Enum, Flag)):
        return out + f"<{T.type.__name__}>" + repr([(n, m.value) for n, m in T.__members__.items()])
    if issubclass(T, Structure):
        fs = [(f.name, f._name, f.offset, f.bits, f.alignment, type_text(f.type, depth + 1)) for f in T.__fields__]
        return out + f"{T.__align__}{T.__anonymous__}{T.__compiled__}" + repr(fs) + repr(list(T.fields)) + repr(list(T.lookup))
    return out


class Side:
    """One cstruct object and the operations on it."""

    def __init__(self):
        self.cs = None

    def do(self, op):
        # copies: what is kept of an argument is not the script's
        return outcome(getattr(self, "op_" + op[0].replace("-", "_")), *copy.deepcopy(op[1:]))

    # structural
    def op_new(self, endian, pointer):
        from dissect.cstruct import cstruct

        self.cs = cstruct(endian=endian, pointer=pointer)
        return "new"

    def op_load(self, text, compiled, align, deftype):
        if deftype:
            self.cs.load(text, deftype=deftype, compiled=compiled, align=align)
        else:
            self.cs.load(text, compiled=compiled, align=align)
        return "loaded"

    def op_endian(self, e):
        self.cs.endian = e
        return "set"

    def op_const(self, n, v):
        self.cs.consts[n] = v
        return "set"

    def op_typedef(self, n, target):
        self.cs.add_type(n, target)
        return "added"

    def op_replace(self, n, target):
        self.cs.add_type(n, target, replace=True)
        return "replaced"

    def op_pointer(self, n):
        self.cs.pointer = self.cs.resolve(n)
        return "set"

    def op_addfield(self, t, n, ft):
        self.cs.resolve(t).add_field(n, self.cs.resolve(ft))
        return type_text(self.cs.resolve(t))

    def op_custom(self, n, size, align):
        from dissect.cstruct import BaseType

        class Custom(BaseType):
            def __init__(self, v=0):
                self.v = v

            @classmethod
            def _read(cls, stream, context=None):
                return cls.__new__(cls)

        self.cs.add_custom_type(n, Custom, size, align)
        return type_text(self.cs.resolve(n))

    # probes
    def value(self, T, data, form):
        s = io.BytesIO(data)
        if form == 1:
            o = T.reads(data)
        elif form == 2:
            o = self.cs.read(T.__name__, data) if T.__name__ in self.cs.typedefs else T(data)
        elif form == 3:
            o = T.read(s)
        else:
            o = T(s)
        return o, s.tell()

    def op_parse(self, t, data, form):
        o, tell = self.value(self.cs.resolve(t), data, form)
        sizes = sorted((k, v) for k, v in (getattr(o, "_sizes", None) or {}).items())
        return repr((repr(o), type(o).__name__, tell, outcome(lambda: type(o).dumps(o) if hasattr(type(o), "dumps") else ""), outcome(lambda: bool(o)), sizes))

    def op_arrayparse(self, t, n, data):
        T = self.cs.resolve(t)[n]
        o, tell = self.value(T, data, 0)
        return repr((T.__name__, repr(o), tell, outcome(T.dumps, o)))

    def op_default(self, t):
        o = self.cs.resolve(t)()
        return repr((repr(o), outcome(lambda: type(o).dumps(o) if hasattr(type(o), "dumps") else ""), outcome(lambda: bool(o))))

    def op_kwargs(self, t, k, v):
        T = self.cs.resolve(t)
        name = T.__fields__[k % len(T.__fields__)]._name
        o = T(**{name: v})
        return repr((repr(o), outcome(lambda: type(o).dumps(o) if hasattr(type(o), "dumps") else "")))

    def op_layout(self, t):
        T = self.cs.resolve(t)
        return type_text(T) + outcome(lambda: len(T)) + repr(T)

    def op_names(self):
        c = self.cs
        return repr([(n, v if isinstance(v, str) else v.__name__) for n, v in c.typedefs.items()]) + repr(list(c.consts.items())) + repr(c.lookups) + c.endian + c.pointer.__name__

    def op_stub(self):
        from dissect.cstruct.tools.stubgen import generate_cstruct_stub

        return generate_cstruct_stub(self.cs)

    def op_hexdump(self, t, data):
        from dissect.cstruct import dumpstruct

        return dumpstruct(self.cs.resolve(t), data, output="string")

    def op_dumpvalue(self, t, data):
        from dissect.cstruct import dumpstruct

        return dumpstruct(self.cs.resolve(t)(data), output="string", color=False)

    def op_expr(self, text, context):
        from dissect.cstruct.expression import Expression

        return repr(Expression(self.cs, text).evaluate(context))

    def op_equal(self, t, a, b):
        T = self.cs.resolve(t)
        x, y = T(a), T(b)
        return repr((x == y, x != y, outcome(lambda: hash(x) == hash(y))))

    def op_assign(self, t, data, k, v):
        T = self.cs.resolve(t)
        o = T(data)
        name = T.__fields__[k % len(T.__fields__)]._name
        setattr(o, name, v)
        return repr((repr(o), outcome(lambda: type(o).dumps(o) if hasattr(type(o), "dumps") else "")))

    def op_deref(self, t, data):
        from dissect.cstruct.types import Pointer

        o = self.cs.resolve(t)(io.BytesIO(data))
        out = []
        for f in type(o).__fields__:
            p = getattr(o, f._name)
            if isinstance(p, Pointer):
                out.append((f._name, int(p), outcome(p.dereference)))
        return repr(out)


def send(f, obj):
    b = pickle.dumps(obj)
    f.write(struct.pack("<I", len(b)) + b)
    f.flush()


def receive(f):
    h = f.read(4)
    if len(h) < 4:
        return None
    n = struct.unpack("<I", h)[0]
    return pickle.loads(f.read(n))


def forked(fn):
    """fn's result, computed in a child."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, "wb") as f:
                send(f, fn())
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        res = receive(f)
    os.waitpid(pid, 0)
    return res


def replay(script):
    side = Side()
    out = [None] * len(script)
    run = []

    def probes():
        # backwards: no probe comes after the one it came after in the history
        res = [(n, side.do(op)) for n, op in reversed(run)]
        return res

    for n, op in enumerate([*script, ("end",)]):
        if op[0] not in STRUCTURAL and op[0] != "end":
            run.append((n, op))
            continue
        if run:
            for m, r in forked(probes) or ():
                out[m] = r
            run = []
        if op[0] != "end":
            out[n] = side.do(op)
    return out


def serve():
    from . import boot  # noqa: F401
    import dissect.cstruct.tools.stubgen  # noqa: F401

    sys.setrecursionlimit(3000)
    gc.collect()
    gc.freeze()
    inp, out = sys.stdin.buffer, os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    while (script := receive(inp)) is not None:
        send(out, forked(lambda script=script: replay(script)))


class Clean:
    """The client."""

    def __init__(self):
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        self.p = subprocess.Popen([sys.executable, "-B", "-m", "rv.clean"], cwd=here, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL)

    def ask(self, script):
        send(self.p.stdin, script)
        return receive(self.p.stdout)

    def close(self):
        with contextlib.suppress(Exception):
            self.p.stdin.close()
            self.p.wait(5)


if __name__ == "__main__":
    serve()
