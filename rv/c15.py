"""C15 concurrency: real threads stepped line by line through the library under enumerated switch points."""
from __future__ import annotations

import _thread
import io
import sys

from . import gen, lib
from . import model as M
from .boot import PKG_DIR, cstruct
from .common import MODES, Err, call, mode_name
from .sched import Run

PID = "C15"
ANCHORS = ["expression.py", "types/base.py", "bitbuffer.py", "types/structure.py", "types/pointer.py"]
RULE = ("A schedule is two or three tasks (parse by every call form, parse and dump, dump, parse with dereference, a failing parse) on one set of type "
        "objects, run as real threads of which one runs at a time, and a plan of switch points on the source lines of the library and of the "
        "readers it generates.  One preemption: every line of the first task (all of them up to a bound, beyond it every distinct line plus a sample), in "
        "both orders; two and three preemptions sampled, preferring a second switch in the code of the first; first use of fresh "
        "types; free running threads with a tiny switch interval.  Oracle: the result of the same task running alone on types "
        "loaded separately.  Non-trivial: the plan really interrupted a task inside the library; distinct by definition, tasks and plan.")
ASSUMPTIONS = ["switch points are source lines of dissect.cstruct and of generated readers (byte code instructions in part of the runs)",
               "each thread has its own stream and its own values; types are not modified while threads run"]
REQUIRED = ["schedules", "one_preemption", "two_preemptions", "three_threads", "cold_schedules", "stress_parses", "opcode_schedules", "interrupted", "switch_in:expression.py",
            "switch_in:base.py", "switch_in:bitbuffer.py", "switch_in:structure.py", "switch_in:pointer.py", "switch_in:<compiled", "switch_in:char.py",
            "task:parse", "task:dump", "task:deref", "task:failing", "mode:compiled", "mode:interpreted"]

DEFS = [
    # (definition, inputs)
    ("struct T { uint8 a; uint8 b; uint8 d[a * 2 + b]; uint8 e; };",
     ["01000102ff", "0300010203040506fe", "0001aafd", "020105060708090afb"]),
    ("#define K 3\nstruct T { uint8 a; uint8 d[(a & 3) << 1]; uint16 e[K - (a % 3)]; uint8 f[-(-a) ^ 1]; uint8 z; };",
     ["02" + "0a0b0c0d" + "0100" + "aabbcc" + "77", "03" + "010203040506" + "010002000300" + "0102" + "78", "00" + "010002000300" + "11" + "79"]),
    ("struct I { uint8 n; char s[n]; };\nstruct T { uint8 c; I items[c + 1]; uint8 n; wchar w[n | 1]; uint16 z; };",
     ["0102616203636465" + "00" + "4100" + "0102", "00" + "0141" + "03" + "410042004300" + "0304", "02" + "000141" + "024243" + "01" + "5a00" + "0506"]),
    ("struct T { uint16 a:3; uint16 b:5; uint16 c:8; uint8 n:4; uint8 m:4; uint8 d[n + m]; uint32 x:31; uint32 y:1; };",
     ["3412" + "21" + "010203" + "78563412", "ffff" + "10" + "aa" + "000000ff", "0180" + "32" + "0102030405" + "ffffff7f"]),
    ("enum E : uint8 { A = 1, B, C };\nflag F : uint16 { P, Q = 4, R };\n"
     "struct T { E e:4; E f:4; F g; uint8 n; E es[n * sizeof(E)]; F fs[n]; E t; };",
     ["21" + "0500" + "02" + "0103" + "04000800" + "02", "43" + "0f00" + "01" + "07" + "1000" + "03", "12" + "0000" + "00" + "01"]),
    ("union U { uint32 a; uint8 b[4]; struct { uint16 c; uint16 d:4; uint16 e:12; }; };\nstruct T { uint8 n; U u[n]; union { uint16 x; uint8 y; } v; uint8 z; };",
     ["01" + "01020304" + "0506" + "07", "02" + "0102030405060708" + "1122" + "33", "00" + "aabb" + "cc"]),
    ("struct N { uint8 k; uint8 v[k]; };\nstruct T { N *p; uint8 n; uint16 q[n]; char *s; uint8 *r; };",
     [("08000000" + "01" + "0500" + "0c000000" + "00").ljust(16, "0") + "02aabb", ("0d" + "000000" + "00" + "09000000" + "0a000000") + "0363646500",
      ("15000000" + "02" + "01000200" + "12000000" + "16000000") + "0061626300" + "0377", ("00000000" + "01" + "0100" + "00000000" + "00000000")]),
    ("struct T { char s[]; wchar w[]; uint8 z[]; uint16 n; uint8 d[n - 1]; uleb128 l; ileb128 m[n]; };",
     ["616200" + "41000000" + "01020300" + "0200" + "aa" + "8001" + "7f01", "00" + "0000" + "00" + "0100" + "05" + "7e", "6100" + "42004300" + "0000" + "0900" + "0300" + "0102" + "ff7f" + "80010203"]),
    ("typedef struct { uint8 n; uint8 m; uint16 g[n][2]; int24 h[m]; float f; double d; uint48 u; uint128 v; } T;",
     ["0101" + "01000200" + "ffffff" + "0000803f" + "000000000000f03f" + "010203040506" + "00" * 15 + "01",
      "0200" + "0100020003000400" + "000000c0" + "0000000000000840" + "ffffffffffff" + "ab" * 16]),
    ("struct A { uint8 n; uint8 x[n + 1]; };\nstruct B { A a; uint8 k; A b[k]; union { A *p; uint32 q; }; };\nstruct T { B b; uint8 n; B c[n & 1]; };",
     ["010102" + "01" + "0005" + "01000000" + "00", "0007" + "00" + "02000000" + "01" + "0101020001000000ff", "020a0b0c" + "02" + "0001" + "010203" + "00000000" + "02"]),
    ("struct T { uint8 n; struct { uint8 m; uint8 r[m + 1]; } s[n + 1]; void v; uint8 e[EOF]; };",
     ["000102030405", "010001020304", "0203010203040001010203"]),
]
LIMIT = {"quick": 260, "thorough": 700}     # lines up to which every switch point of a task is taken


def plain(v, depth=0):
    """Everything observable about a parsed value, as plain data."""
    t = v.__class__
    if depth > 12:
        return "deep"
    fields = getattr(t, "__fields__", None)
    if fields is not None:
        return {f._name: plain(getattr(v, f._name), depth + 1) for f in fields} | {"": t.__name__}
    if isinstance(v, (list, tuple)):
        return [t.__name__] + [plain(x, depth + 1) for x in v]
    if isinstance(v, float):
        return v.hex()
    if hasattr(v, "_stream") and hasattr(t, "type"):
        return (t.__name__, int(v))
    if isinstance(v, int):
        return (t.__name__, int(v))
    if isinstance(v, (bytes, str)):
        return v
    return t.__name__ if t.__name__ == "void" else repr(v)


def task_parse(T, data, form):
    if form == 0:
        return lambda: T(data)
    if form == 1:
        return lambda: T(io.BytesIO(data))
    if form == 2:
        return lambda: T.read(io.BytesIO(data))
    if form == 3:
        return lambda: T.reads(data)
    if form == 5 and call(T.cs.resolve, T.__name__) is T:
        return lambda: T.cs.read(T.__name__, io.BytesIO(data))
    return lambda: T(memoryview(data))


def task_roundtrip(T, data):
    return lambda: T(data).dumps()


def task_dump(T, data):
    """The value is parsed before the threads start."""
    obj = call(T, data)
    if isinstance(obj, Err):
        return None
    return lambda: obj.dumps()


def task_deref(T, data):
    def run():
        s = io.BytesIO(data)
        obj = T(s)
        out = []
        follow(obj, out)
        return [obj, out, s.tell()]

    return run


def follow(v, out, depth=0):
    fields = getattr(v.__class__, "__fields__", None)
    if depth > 4 or len(out) > 40:
        return
    if fields is not None:
        for f in fields:
            follow(getattr(v, f._name), out, depth + 1)
    elif isinstance(v, list):
        for x in v:
            follow(x, out, depth + 1)
    elif hasattr(type(v), "dereference"):
        try:
            x = v.dereference()
            out.append(x)
            follow(x, out, depth + 1)
        except Exception as e:  # noqa: BLE001
            out.append(type(e).__name__)


def task_make(T):
    return lambda: T()


def outcome(r):
    if isinstance(r, Err):
        return ("raised", r.name, r.msg)
    if isinstance(r, list) and len(r) == 3 and isinstance(r[1], list):
        return [plain(r[0]), [plain(x) for x in r[1]], r[2]]
    return plain(r)


def make_task(kind, T, data, form):
    if kind == "parse" or kind == "failing":
        return task_parse(T, data, form)
    if kind == "roundtrip":
        return task_roundtrip(T, data)
    if kind == "dump":
        return task_dump(T, data)
    if kind == "deref":
        return task_deref(T, data)
    return task_make(T)


class Setup:
    """A definition, and what each of its tasks gives when running alone."""

    def __init__(self, ctx, build, specs, describe):
        self.ctx, self.build, self.specs, self.describe = ctx, build, specs, describe
        self.ok = False
        self.T = build()
        if self.T is None:
            return
        self.alone = []
        self.locs = []
        self.dead = False
        for s in specs:
            A = build()
            t = make_task(s[0], A, s[1], s[2])
            if t is None:
                return
            self.alone.append(outcome(call(t)))
            # the lines this task passes
            r = Run([make_task(s[0], A, s[1], s[2])], [(0, None)], record=True)
            r.go()
            self.locs.append(r.locs)
            if r.hung:
                return
        self.ok = True

    def run(self, plan, cold=False, opcodes=False, order=None):
        ctx = self.ctx
        T = self.build() if cold else self.T
        tasks = [make_task(s[0], T, s[1], s[2]) for s in self.specs]
        r = Run(tasks, plan, opcodes=opcodes)
        res = r.go()
        ctx.ev("schedules")
        if cold:
            ctx.ev("cold_schedules")
        if opcodes:
            ctx.ev("opcode_schedules")
        if len(tasks) > 2:
            ctx.ev("three_threads")
        if r.free:
            ctx.ev("uncontrolled_runs")
        if r.switches:
            ctx.ev("interrupted")
            for _, where, _ in r.switches:
                f = where.split(" ")[0].split(":")[0]
                ctx.ev("switch_in:" + (f if not f.startswith("<") else "<compiled"))

        def d(**kw):
            return {**self.describe, "tasks": [(s[0], s[1].hex(), s[2]) for s in self.specs], "plan": plan, "first_use": cold, "switches": r.switches, **kw}

        if r.hung:
            ctx.fail("no-result", d(finished=r.done))
            self.dead = True
            return False
        for k, (got, want) in enumerate(zip(res, self.alone)):
            got = call(outcome, got)
            if not ctx.check(got == want, "differs-from-alone", lambda: d(thread=k, alone=repr(want)[:1500], got=repr(got)[:1500])):
                self.dead = True
                return False
        if r.switches:
            ctx.key(self.describe["definition"], self.describe["mode"], [(s[0], s[1], s[2]) for s in self.specs], plan, cold, opcodes)
        return True


def points(ctx, locs, limit):
    """Switch points of a task: all of them, or every distinct line (first, second and last time) and a sample."""
    n = len(locs)
    if n <= limit:
        return list(range(n))
    first = {}
    for i, l in enumerate(locs):
        first.setdefault(l, []).append(i)
    out = set()
    for v in first.values():
        out.update((v[0], v[-1], ctx.rng.choice(v)))
    out = list(out)
    if len(out) > limit:
        out = ctx.rng.sample(out, limit)
    rest = limit - len(out)
    if rest > 0:
        out += ctx.rng.sample(range(n), min(n, rest))
    return sorted(set(out))


def explore(ctx, s, limit, pairs, triples=0, cold=0, opcodes=0):
    """One preemption everywhere, in both orders, then sampled deeper plans."""
    rng = ctx.rng
    n = len(s.specs)
    for a in range(n):
        for k in points(ctx, s.locs[a], limit):
            others = [b for b in range(n) if b != a]
            rng.shuffle(others)
            if not s.run([(a, k)] + [(b, None) for b in others] + [(a, None)]):
                return
            ctx.ev("one_preemption")
    where = []
    for a in range(n):
        by = {}
        for i, l in enumerate(s.locs[a]):
            by.setdefault(l[1], []).append(i)
        where.append(by)
    for _ in range(pairs):
        a, b = rng.sample(range(n), 2)
        if not s.locs[a] or not s.locs[b]:
            continue
        k = rng.randrange(len(s.locs[a]))
        same = where[b].get(s.locs[a][k][1])
        j = rng.choice(same) if same and rng.random() < 0.7 else rng.randrange(len(s.locs[b]))
        if not s.run([(a, k), (b, j), (a, None), (b, None)]):
            return
        ctx.ev("two_preemptions")
    for _ in range(triples):
        plan = []
        for _ in range(rng.randint(3, 12)):
            plan.append((rng.randrange(n), rng.randrange(1, rng.choice((3, 10, 40, 150)))))
        if not s.run(plan):
            return
        ctx.ev("many_preemptions")
    for _ in range(cold):
        a, b = rng.sample(range(n), 2)
        if not s.locs[a] or not s.locs[b]:
            continue
        plan = [(a, rng.randrange(len(s.locs[a]))), (b, rng.choice((None, rng.randrange(len(s.locs[b]))))), (a, None), (b, None)]
        if not s.run(plan, cold=True):
            return
    for _ in range(opcodes):
        a, b = rng.sample(range(n), 2)
        if not s.run([(a, rng.randrange(6 * len(s.locs[a]) + 1)), (b, rng.choice((None, rng.randrange(6 * len(s.locs[b]) + 1)))), (a, None), (b, None)], opcodes=True):
            return


CASE_CPU = 120.0
COUNT_STEPS = False     # a case is thousands of runs; a run that makes no progress is noticed by the scheduler

KINDS = ("parse", "parse", "roundtrip", "dump", "deref")


def directed_builder(ctx, text, comp, endian="<", align=False):
    def build():
        cs = cstruct(endian=endian, pointer="uint32")
        r = call(cs.load, text, compiled=comp, align=align)
        if isinstance(r, Err):
            ctx.fail("definition-rejected", {"definition": text, "raised": repr(r)})
            return None
        return cs.resolve("T")

    return build


def w_directed(ctx, i):
    """Every fixed definition, in both modes, with all one-preemption schedules of a pair of tasks."""
    rng = ctx.rng
    text, inputs = DEFS[i // 2 % len(DEFS)]
    comp = bool(i % 2)
    ctx.ev("mode:" + mode_name(comp))
    ds = rng.sample(inputs, 2)
    specs = []
    for d in ds:
        kind = rng.choice(KINDS) if "*" not in text else rng.choice(("deref", "deref", "parse", "dump"))
        data = bytes.fromhex(d)
        if rng.random() < 0.08:
            kind, data = "failing", data[:rng.randrange(len(data))]
        specs.append((kind, data, rng.randrange(6)))
        ctx.ev("task:" + kind)
    s = Setup(ctx, directed_builder(ctx, text, comp), specs, {"definition": text, "mode": mode_name(comp), "endian": "<"})
    if not s.ok:
        return
    if isinstance(s.alone[0], tuple) and s.alone[0][:1] == ("raised",):
        ctx.ev("alone_raises")
    thorough = ctx.thorough()
    explore(ctx, s, LIMIT[ctx.tier], 40 if not thorough else 300, 20 if not thorough else 150, 20 if not thorough else 100, 15 if not thorough else 150)
    ctx.sample({"definition": text, "mode": mode_name(comp), "tasks": [(x[0], x[1].hex()) for x in specs], "lines": [len(x) for x in s.locs]})


def w_random(ctx, i):
    """Random definitions, two or three random tasks on any of their types."""
    rng = ctx.rng
    prof = gen.Profile(depth=2, fields=(1, 5), nested=0.4, array=0.5, dyn=0.6, multidim=0.3, union=0.15, ptr=0.2, bits=0.35, eof=0.05)
    g = gen.Gen(rng, prof)
    if rng.random() < 0.4:
        g.cfg.consts = {"KA": rng.randrange(4), "KB": 2}
    root, cfg = g.program(), g.cfg
    comp = rng.random() < 0.5
    ctx.ev("mode:" + mode_name(comp))

    def build():
        r = call(lib.build, root, cfg, comp)
        if isinstance(r, Err):
            ctx.fail("definition-rejected", {**lib.describe(root, cfg), "raised": repr(r)})
            return None
        return r[1]

    specs = []
    for _ in range(3 if rng.random() < 0.3 else 2):
        x = gen.gen_data(rng, root, cfg)
        if x is None:
            return
        kind = rng.choice(KINDS)
        data = x[0]
        if rng.random() < 0.08:
            kind, data = "failing", data[:rng.randrange(len(data) + 1)]
        specs.append((kind, data, rng.randrange(6)))
        ctx.ev("task:" + kind)
    s = Setup(ctx, build, specs, {**lib.describe(root, cfg), "mode": mode_name(comp)})
    if not s.ok:
        return
    th = ctx.thorough()
    explore(ctx, s, 60 if not th else 300, 20 if not th else 120, 10 if not th else 60, 6 if not th else 40, 4 if not th else 40)


def w_stress(ctx, i):
    """Free running threads on shared types, switch interval of a microsecond, no tracing."""
    rng = ctx.rng
    text, inputs = DEFS[i % len(DEFS)]
    comp = rng.random() < 0.5
    B = directed_builder(ctx, text, comp)
    A, T = B(), B()
    if A is None or T is None:
        return
    n, rounds = 6, 25 if not ctx.thorough() else 120
    specs = [(rng.choice(KINDS), bytes.fromhex(rng.choice(inputs)), rng.randrange(6)) for _ in range(n)]
    alone = [outcome(call(make_task(k, A, d, f) or (lambda: None))) for k, d, f in specs]
    out = [[] for _ in range(n)]
    fin = [_thread.allocate_lock() for _ in range(n)]
    for l in fin:
        l.acquire()

    def body(k):
        try:
            t = make_task(specs[k][0], T, *specs[k][1:]) or (lambda: None)
            for _ in range(rounds):
                out[k].append(call(t))
        finally:
            fin[k].release()

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for k in range(n):
            _thread.start_new_thread(body, (k,))
        for l in fin:
            if not l.acquire(timeout=60):
                ctx.fail("no-result", {"definition": text, "mode": mode_name(comp), "workload": "stress"})
                return
    finally:
        sys.setswitchinterval(old)
    for k in range(n):
        ctx.ev("stress_parses", len(out[k]))
        for r in out[k]:
            got = call(outcome, r)
            if not ctx.check(got == alone[k], "differs-from-alone",
                             lambda: {"definition": text, "mode": mode_name(comp), "task": (specs[k][0], specs[k][1].hex()), "schedule": "free running",
                                      "alone": repr(alone[k])[:1500], "got": repr(got)[:1500]}):
                return


WORKLOADS = {
    "directed": (w_directed, 2 * len(DEFS) * 2, 2 * len(DEFS) * 20),
    "random": (w_random, 200, 2200),
    "stress": (w_stress, 44, 440),
}
EXHAUSTIVE = "for each pair of tasks on the fixed definitions, every single switch point (source line) of either task up to the bound"
