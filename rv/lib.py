"""Drive the code under test: load definitions built from model ASTs, call it, capture outcomes."""
from __future__ import annotations

import io
import sys

from . import boot  # noqa: F401
from .boot import cstruct
from . import model as M


class CaseTimeout(BaseException):
    pass


class StepLimit(BaseException):
    pass


class Err:
    """An exception raised by the code under test."""

    __slots__ = ("exc", "name", "msg")

    def __init__(self, exc):
        self.name = type(exc).__name__
        self.msg = str(exc)[:200]
        self.exc = exc

    def __repr__(self):
        return f"<raised {self.name}: {self.msg}>"

    def isa(self, cls):
        return isinstance(self.exc, cls)


def call(fn, *a, **k):
    try:
        return fn(*a, **k)
    except (KeyboardInterrupt, SystemExit, CaseTimeout, StepLimit):
        raise
    except BaseException as e:  # noqa: BLE001
        e.__traceback__ = None
        return Err(e)


def new_cs(cfg):
    return cstruct(endian=cfg.endian, pointer=cfg.ptr.name)


def load_program(cs, root, cfg, compiled=True, names=None, skip=()):
    """Load every named type root needs, each under its own alignment mode, the way a user would."""
    texts = []
    if cfg.consts:
        texts.append(("\n".join(f"#define {k} {v}" for k, v in cfg.consts.items()) + "\n", False))
    for t in M.deps(root):
        if isinstance(t, M.En):
            texts.append((M.enum_text(t) + "\n", None))
        else:
            texts.append((M.struct_text(t, names) + ";\n", t.align))
    # merge neighbours with the same mode into one load() call
    merged = []
    for text, al in texts:
        if merged and (al is None or merged[-1][1] is None or merged[-1][1] == al):
            merged[-1] = (merged[-1][0] + text, merged[-1][1] if merged[-1][1] is not None else al)
        else:
            merged.append((text, al))
    for text, al in merged:
        cs.load(text, compiled=compiled, align=bool(al))
    return merged


def build(root, cfg, compiled=True, names=None):
    cs = new_cs(cfg)
    load_program(cs, root, cfg, compiled, names)
    return cs, cs.resolve(root.name)


def describe(root, cfg):
    al = []
    for t in M.deps(root):
        if isinstance(t, M.St):
            al.append(f"{t.name}:{'aligned' if t.align else 'packed'}")
    return {
        "definition": M.program_text(root, cfg.consts),
        "endian": cfg.endian,
        "pointer": cfg.ptr.name,
        "modes": ", ".join(al),
    }


def same_exc(a, b):
    return a.name == b.name


sys.setrecursionlimit(max(sys.getrecursionlimit(), 3000))
BytesIO = io.BytesIO
