"""C10 expressions: every well-formed token sequence up to a length, and random ones beyond, against a precedence-climbing oracle."""
from __future__ import annotations

import functools

from . import lib
from . import model as M
from .boot import cstruct
from .common import MODES, Err, call, mode_name

PID = "C10"
ANCHORS = ["expression.py", "types/base.py"]
RULE = ("A case is a block of expression shapes (operators, parentheses and unary operators in every well-formed arrangement of a length) "
        "with several operand assignments, or a random expression tree rendered with random spacing, literal forms and redundant parentheses; "
        "the tree or an independent precedence-climbing parser gives the value.  Expression objects are re-evaluated through "
        "histories of contexts, errors included, and reached through array lengths, enum values and #define.  Non-trivial: evaluated "
        "and compared; distinct by expression text and context.")
ASSUMPTIONS = ["/ and % only with non-negative operands, shifts by 0..200, no division by zero: outside the statement",
               "spaces and tabs are the only white space inside expressions"]
REQUIRED = ["shapes", "random_trees", "histories", "failing_evaluations", "literals", "identifiers", "context_over_constant", "sizeofs",
            "array_lengths", "enum_values", "defines", "suffixes", "deep", "sizes_changed"]

BIN = {"|": 1, "^": 2, "&": 3, "<<": 4, ">>": 4, "+": 5, "-": 5, "*": 6, "/": 6, "%": 6}


class Skip(Exception):
    """Outside the claimed domain."""


def apply(op, a, b):
    if op in "/%":
        if a < 0 or b <= 0:
            raise Skip
        return a // b if op == "/" else a % b
    if op in ("<<", ">>"):
        if not 0 <= b <= 200 or abs(a) >> 3000:
            raise Skip
        return a << b if op == "<<" else a >> b
    if op == "*":
        if abs(a) >> 3000 or abs(b) >> 3000:
            raise Skip
        return a * b
    return {"|": a | b, "^": a ^ b, "&": a & b, "+": a + b, "-": a - b}[op]


def climb(tokens, value):
    """Value of a token list by precedence climbing; value(token) gives the operands."""
    pos = 0

    def unary():
        nonlocal pos
        t = tokens[pos]
        pos += 1
        if t == "-":
            return -unary()
        if t == "~":
            return ~unary()
        if t == "(":
            v = binary(1)
            assert tokens[pos] == ")"
            pos += 1
            return v
        return value(t)

    def binary(level):
        nonlocal pos
        left = unary()
        while pos < len(tokens) and BIN.get(tokens[pos], 0) >= level:
            op = tokens[pos]
            pos += 1
            right = binary(BIN[op] + 1)
            left = apply(op, left, right)
        return left

    v = binary(1)
    assert pos == len(tokens)
    return v


# ----------------------------------------------------------------------------------------------- all shapes

OPERATORS = list(BIN)


@functools.lru_cache(None)
def shapes(n):
    """All well-formed sequences of n tokens over O (operand), the unary and binary operators and parentheses.

    Binary operators of the same level stand for each other except where both are needed: kept complete.
    """
    out = []

    def rec(seq, depth, operand):
        left = n - len(seq)
        if left < depth + (1 if operand else 0):
            return
        if left == 0:
            if depth == 0 and not operand:
                out.append(tuple(seq))
            return
        if operand:
            rec([*seq, "O"], depth, False)
            rec([*seq, "-"], depth, True)
            rec([*seq, "~"], depth, True)
            rec([*seq, "("], depth + 1, True)
        else:
            if depth:
                rec([*seq, ")"], depth - 1, False)
            for op in "B":
                rec([*seq, op], depth, True)

    rec([], 0, True)
    return out


def skeletons(upto):
    return [s for n in range(1, upto + 1) for s in shapes(n)]


QUICK_LEN, THOROUGH_LEN = 9, 11


BLOCK = 40


def n_blocks(upto):
    return (len(skeletons(upto)) + BLOCK - 1) // BLOCK


NAMES = ["x", "y", "zz", "_k", "a1", "L", "u", "b", "e", "sizeofx"]


def w_shapes(ctx, i):
    """Every arrangement of unary operators, parentheses and binary operators; operators assigned completely while few."""
    rng = ctx.rng
    upto = THOROUGH_LEN if ctx.thorough() else QUICK_LEN
    sk = skeletons(upto)[i * BLOCK : (i + 1) * BLOCK]
    cs = CS()
    for s in sk:
        nb = s.count("B")
        if nb <= 2:
            assigns = all_ops(nb)
        else:
            assigns = [tuple(rng.choice(OPERATORS) for _ in range(nb)) for _ in range(60 if not ctx.thorough() else 40)]
        for ops in assigns:
            it = iter(ops)
            toks = [next(it) if t == "B" else t for t in s]
            for k in range(2):
                bind = {}
                final = []
                for t in toks:
                    if t != "O":
                        final.append(t)
                        continue
                    v = rng.choice((0, 1, 2, 3, 5, 7, 8, 12, 100, 255))
                    if rng.random() < 0.5:
                        nm = rng.choice(NAMES)
                        v = bind.setdefault(nm, v)
                        final.append(nm)
                    else:
                        final.append(str(v))
                judge(ctx, cs, final, bind, rng.choice((" ", "", "")))
        ctx.ev("shapes", len(assigns))
    if i % 11 == 3 and sk:
        ctx.sample({"text": "".join(final), "bindings": bind})


@functools.lru_cache(None)
def all_ops(n):
    import itertools

    return list(itertools.product(OPERATORS, repeat=n))


def CS():
    return cstruct()


def text_of(tokens, sep):
    out = ""
    for k, t in enumerate(tokens):
        if k and sep == "" and (out[-1].isalnum() or out[-1] == "_") and (t[0].isalnum() or t[0] == "_"):
            out += " "
        out += (sep if k else "") + t
    return out


def judge(ctx, cs, tokens, bind, sep, where="context"):
    from dissect.cstruct import Expression

    try:
        want = climb(tokens, lambda t: bind[t] if t in bind else int(t))
    except Skip:
        ctx.ev("outside_domain")
        return
    text = text_of(tokens, sep)
    r = call(lambda: Expression(cs, text).evaluate(bind))
    ctx.key(text, sorted(bind.items()))
    ctx.check(type(r) is int and r == want, "value", lambda: {"expression": text, "context": bind, "expected": str(want), "got": repr(r)[:200]})


# ----------------------------------------------------------------------------------------------- random trees


def literal(rng, v):
    k = rng.randrange(6)
    if k == 0:
        s = hex(v) if rng.random() < 0.5 else "0X" + format(v, "X")
        if rng.random() < 0.2:
            s = s[:2] + "00" + s[2:]
    elif k == 1:
        s = "0" + format(v, "o") if v else "0"
    elif k == 2:
        s = ("0b" if rng.random() < 0.6 else "0B") + format(v, "b")
    else:
        s = str(v)
    if rng.random() < 0.3:
        s += rng.choice(("u", "U", "l", "L", "ul", "UL", "lu", "LU", "ll", "LL", "ull", "ULL", "llu", "LLU", "uL", "Ul"))
    return s


class Tree:
    """A random expression: text with minimal or redundant parentheses, and its value."""

    def __init__(self, rng, env, sizes):
        self.rng, self.env, self.sizes = rng, env, sizes

    def gen(self, depth):
        """(precedence, text, value)."""
        rng = self.rng
        k = rng.random()
        if depth == 0 or k < 0.12:
            x = rng.random()
            if x < 0.4 and self.env:
                n = rng.choice(sorted(self.env))
                return 9, n, self.env[n]
            if x < 0.55 and self.sizes:
                n = rng.choice(sorted(self.sizes))
                sp = " " * rng.randrange(2)
                return 9, f"sizeof{sp}({sp}{n}{sp})", self.sizes[n]
            v = rng.choice((0, 1, 2, 3, 7, 8, 9, 10, 15, 16, 31, 255, 256, 65535, 1 << 31, (1 << 32) - 1, 1 << 64, rng.getrandbits(20)))
            return 9, literal(rng, v), v
        if k < 0.3:
            op = rng.choice("-~")
            p, t, v = self.gen(depth - 1)
            if p < 7:
                t = self.paren(t)
            t = op + self.gap() + t
            return 7, t, -v if op == "-" else ~v
        op = rng.choice(OPERATORS)
        lv = BIN[op]
        p1, t1, v1 = self.gen(depth - 1)
        p2, t2, v2 = self.gen(rng.randrange(depth))
        if op in ("<<", ">>"):
            v2n = rng.randrange(0, 40)
            p2, t2, v2 = 9, literal(rng, v2n), v2n
        if p1 < lv or rng.random() < 0.1:
            t1 = self.paren(t1)
        if p2 <= lv or rng.random() < 0.1:
            t2 = self.paren(t2)
        v = apply(op, v1, v2)
        return lv, t1 + self.gap() + op + self.gap() + t2, v

    def gap(self):
        return self.rng.choice(("", "", " ", "  ", "\t", " \t"))

    def paren(self, t):
        g = self.gap()
        return f"({g}{t}{g})" if self.rng.random() < 0.9 else f"(({t}))"


TYPES = """
typedef uint16 tdef_t;
struct st3 { uint8 a; uint16 b; };
struct st0 { };
union un4 { uint8 a; uint32 b; };
enum en8 : uint64 { Q = 1 };
typedef st3 st_alias;
typedef uint32 arr_t[5];
typedef uint8 *ptr_t;
"""
SIZES = {"uint8": 1, "uint16": 2, "uint32": 4, "uint64": 8, "uint128": 16, "int24": 3, "int48": 6, "char": 1, "wchar": 2, "float": 4,
         "double": 8, "float16": 2, "DWORD": 4, "unsigned int": 4, "unsigned long long": 8, "signed char": 1, "tdef_t": 2, "st3": 3,
         "un4": 4, "en8": 8, "st_alias": 3, "arr_t": 20, "ptr_t": 8, "long": 4, "short": 2, "__int64": 8, "uint32_t": 4, "u1": 1, "st0": 0}


def env_for(rng, names=NAMES):
    return {n: rng.choice((0, 1, 2, 3, 4, 7, 16, 200, 255, 70000, 1 << 40)) for n in rng.sample(names, rng.randrange(0, 5))}


def w_trees(ctx, i):
    from dissect.cstruct import Expression

    rng = ctx.rng
    cs = cstruct()
    cs.load(TYPES)
    for _ in range(30):
        env = env_for(rng)
        consts = env_for(rng)
        for n in cs.consts.copy():
            del cs.consts[n]
        cs.consts.update(consts)
        both = {**consts, **env}
        depth = rng.choice((1, 2, 3, 4, 5, 6, 8))
        try:
            _, text, want = Tree(rng, both, SIZES).gen(depth)
        except Skip:
            ctx.ev("outside_domain")
            continue
        lead = rng.choice(("", " ", "\t"))
        e = call(Expression, cs, lead + text + lead)
        r = call(e.evaluate, env) if not isinstance(e, Err) else e
        ctx.ev("random_trees")
        if "sizeof" in text:
            ctx.ev("sizeofs")
        if set(env) & set(consts):
            ctx.ev("context_over_constant")
        if depth > 5:
            ctx.ev("deep")
        ctx.key(text, sorted(env.items()), sorted(consts.items()))
        if not ctx.check(r == want and type(r) is int, "tree-value", lambda: {
                "expression": text, "context": env, "constants": consts, "expected": str(want), "got": repr(r)[:200]}):
            continue
        # the same object again and again
        for _ in range(2):
            ctx.ev("histories")
            r = call(e.evaluate, env)
            ctx.check(r == want, "re-evaluation", lambda: {"expression": text, "context": env, "constants": consts,
                                                          "expected": str(want), "got": repr(r)[:200]})
    ctx.sample({"expression": text, "expected": str(want)[:80]})


def w_literals(ctx, i):
    """Every literal form and suffix, alone and between operators."""
    from dissect.cstruct import Expression

    rng = ctx.rng
    cs = cstruct()
    values = [0, 1, 7, 8, 9, 10, 11, 15, 16, 63, 64, 255, 256, 0xB, 0xB0, 0xBB, 0xABCDEF, 0xDEADBEEF, 0xFFFFFFFF, 1 << 63, (1 << 64) - 1, 10 ** 20]
    values += [rng.getrandbits(rng.randint(1, 80)) for _ in range(10)]
    sufs = [""] + [a + b for a in ("u", "U") for b in ("", "l", "L", "ll", "LL")] + [b + a for a in ("", "u", "U") for b in ("l", "L", "ll", "LL")]
    suf = sufs[i % len(sufs)]
    for v in values:
        forms = [str(v), hex(v), "0X" + format(v, "X"), "0x" + format(v, "x").upper(), "0b" + format(v, "b"), "0B" + format(v, "b"),
                 "0" + format(v, "o"), "00" + format(v, "o"), "0x0" + format(v, "x")]
        for f in forms:
            t = f + suf
            for text, want in ((t, v), (f"-{t}", -v), (f"{t}+1", v + 1), (f"1+{t}", v + 1), (f"({t})", v), (f"{t} * 2", v * 2),
                               (f"~{t}&{t}", 0), (f"{t}-{t}", 0), (f" {t} ", v), (f"{t}<<3", v << 3), (f"({t}|1)-{t}", (v | 1) - v)):
                r = call(lambda: Expression(cs, text).evaluate())
                ctx.ev("literals")
                if suf:
                    ctx.ev("suffixes")
                ctx.check(r == want, "literal", lambda: {"expression": text, "expected": want, "got": repr(r)})
    ctx.key("literals", suf)


def w_identifiers(ctx, i):
    """Names of every shape, in the context, in the constants, in both, in neither."""
    from dissect.cstruct import Expression

    rng = ctx.rng
    letters = "abcxuLBX_eE"
    for _ in range(60):
        n = rng.choice(letters) + "".join(rng.choice(letters + "0123456789") for _ in range(rng.randrange(0, 8)))
        other = n + rng.choice("a_0")
        if n == "sizeof":
            continue
        cs = cstruct()
        a, b = rng.randrange(1, 100), rng.randrange(100, 200)
        cs.consts[n] = b
        cs.consts[other] = 1000
        e = Expression(cs, rng.choice((f"{n}", f" {n} ", f"({n})", f"- -{n}", f"~~{n}", f"0+{n}", f"{n}|0", f"{other}-{other}+{n}")))
        seq = []
        for _ in range(6):
            c = rng.choice((None, {}, {n: a}, {other: 5}, {n: 0}, {n: a, other: 3}))
            want = (c or {}).get(n, b)
            r = call(e.evaluate, c)
            ctx.ev("identifiers")
            ctx.ev("histories")
            if c and n in c:
                ctx.ev("context_over_constant")
            seq.append((c, repr(r)))
            ctx.check(r == want, "identifier", lambda: {"expression": repr(e), "name": n, "constant": b, "history": seq, "expected": want})
            if c:
                ctx.check(c in ({n: a}, {other: 5}, {n: 0}, {n: a, other: 3}), "context-modified", lambda: {"context": repr(c)})
        del cs.consts[n]
        r = call(e.evaluate, {other: 1})
        ctx.ev("failing_evaluations")
        ctx.check(isinstance(r, Err), "unknown-name", lambda: {"expression": repr(e), "name": n, "got": repr(r)})
        r = call(e.evaluate, {n: a})
        ctx.check(r == a, "after-failure", lambda: {"expression": repr(e), "name": n, "expected": a, "got": repr(r)})
        ctx.key("identifier", n, repr(e))


def w_history(ctx, i):
    """One expression object under a history of contexts, errors and constant changes equals a fresh object at each step."""
    from dissect.cstruct import Expression

    rng = ctx.rng
    cs = cstruct()
    cs.load(TYPES)
    names = rng.sample(NAMES, 3)
    env0 = {n: rng.randrange(1, 50) for n in names}
    objs = []
    sizes = dict(SIZES)
    changing = rng.random() < 0.5
    for _ in range(3):
        try:
            t = Tree(rng, env0, {n: sizes[n] for n in ("st3", "st_alias", "tdef_t", "uint16")} if changing else sizes)
            _, text, _ = t.gen(rng.randint(2, 6))
        except Skip:
            continue
        objs.append((text, Expression(cs, text)))
    if not objs:
        return
    log = []
    for step in range(25):
        text, e = rng.choice(objs)
        if changing and rng.random() < 0.2:
            # the types that the expression asks the size of are not what they were
            n = rng.choice(("uint8", "uint16", "uint32", "uint64"))
            if rng.random() < 0.6:
                cs.st3.add_field(f"x{step}", cs.resolve(n))
                sizes["st3"] += SIZES[n]
                sizes["st_alias"] += SIZES[n]
            else:
                cs.add_type("tdef_t", cs.resolve(n), replace=True)
                sizes["tdef_t"] = SIZES[n]
            ctx.ev("sizes_changed")
        k = rng.random()
        ctxt = {n: rng.randrange(0, 60) for n in names}
        if k < 0.25:
            # leave out a name: may fail (or come from the constants)
            ctxt.pop(rng.choice(names))
        elif k < 0.35:
            cs.consts[rng.choice(names)] = rng.randrange(100)
        elif k < 0.4:
            cs.consts.pop(rng.choice(names), None)
        elif k < 0.45:
            ctxt = None
        r = call(e.evaluate, ctxt)
        f = call(lambda: Expression(cs, text).evaluate(ctxt))
        same = r.name == f.name if isinstance(r, Err) and isinstance(f, Err) else not isinstance(r, Err) and not isinstance(f, Err) and r == f
        log.append((text, ctxt, dict(cs.consts), repr(r)[:60]))
        ctx.ev("histories")
        if isinstance(r, Err):
            ctx.ev("failing_evaluations")
        else:
            # and the fresh object is right
            toks = tokens_of(text, sizes)
            try:
                both = {**cs.consts, **(ctxt or {})}
                want = climb(toks, lambda t: both[t] if t in both else t if isinstance(t, int) else int(t))
                ctx.check(r == want, "history-value", lambda: {"expression": text, "context": ctxt, "expected": str(want), "got": repr(r)})
            except Skip:
                pass
        ctx.check(same, "history", lambda: {"expression": text, "history": log[-8:], "fresh": repr(f), "again": repr(r)})
    ctx.key("history", log)


def tokens_of(text, sizes=SIZES):
    """Tokenise one of our own renderings."""
    import re

    out = []
    for m in re.finditer(r"sizeof\s*\(\s*([^)]*?)\s*\)|(0[xX][0-9a-fA-F]+|0[bB][01]+|\d+)[uUlL]*|([A-Za-z_]\w*)|(<<|>>|[-~()*/%+&^|])", text):
        if m.group(1) is not None:
            out.append(sizes[m.group(1)])
        elif m.group(2) is not None:
            s = m.group(2)
            out.append(int(s, 0) if s[:2].lower() in ("0x", "0b") else int(s, 8) if s[0] == "0" else int(s))
        else:
            out.append(m.group(3) or m.group(4))
    return out


# ----------------------------------------------------------------------------------------------- where expressions are used


def w_callers(ctx, i):
    """The same expressions as array lengths, enum values and constants."""
    from dissect.cstruct import Expression

    rng = ctx.rng
    comp = bool(i & 1)
    cs = cstruct(endian=rng.choice("<>"))
    cs.load(TYPES)
    consts = {n: rng.randrange(1, 20) for n in ("KA", "KB")}
    order = "little" if cs.endian == "<" else "big"
    cs.load("".join(f"#define {n} {literal(rng, v)}\n" for n, v in consts.items()))
    for n, v in consts.items():
        ctx.check(cs.consts.get(n) == v, "define-literal", lambda: {"name": n, "expected": v, "got": repr(cs.consts.get(n))})
    for k in range(8):
        # constants built from constants
        try:
            _, text, want = Tree(rng, consts, SIZES).gen(rng.randint(1, 5))
        except Skip:
            continue
        text = text.replace("\t", " ")
        r = call(cs.load, f"#define D{k} {text}\n")
        ctx.ev("defines")
        got = cs.consts.get(f"D{k}")
        ctx.check(not isinstance(r, Err) and got == want, "define", lambda: {"text": text, "expected": str(want), "got": repr(got), "raised": repr(r)})
        # enum values over earlier members and constants
        env = dict(consts)
        body, vals = [], {}
        nxt = 0
        for j in range(rng.randint(1, 5)):
            nm = f"M{k}_{j}"
            if rng.random() < 0.6:
                try:
                    _, t, v = Tree(rng, {**env, **vals}, SIZES).gen(rng.randint(1, 3))
                except Skip:
                    continue
                if abs(v) >> 120:
                    continue
                t = t.replace("\t", " ")
                body.append(f"{nm} = {t}")
            else:
                v = nxt
                body.append(nm)
            vals[nm] = v
            nxt = v + 1
        if body:
            r = call(cs.load, f"enum E{k} : int128 {{ {', '.join(body)} }};")
            ctx.ev("enum_values", len(vals))
            if ctx.check(not isinstance(r, Err), "enum-load", lambda: {"body": body, "raised": repr(r)}):
                got = {n: int(m.value) for n, m in getattr(cs, f"E{k}").__members__.items()}
                ctx.check(got == vals, "enum-values", lambda: {"body": body, "expected": repr(vals), "got": repr(got), "constants": consts})
        # array lengths over fields, constants and sizes
        fenv = {"fa": rng.randrange(0, 9), "fb": rng.randrange(0, 300), "fc": rng.randrange(0, 8), "KA": rng.randrange(0, 9)}
        shadow = rng.random() < 0.4
        if not shadow:
            fenv.pop("KA")
        for _ in range(4):
            try:
                _, t, v = Tree(rng, {**consts, **fenv}, SIZES).gen(rng.randint(1, 4))
            except Skip:
                continue
            t = t.replace("\t", " ")
            # keep the lengths small
            t, v = f"({t}) & 7", v & 7
            if rng.random() < 0.2:
                t, v = f"{t} - 4", (v - 4) if False else climb(tokens_of(f"{t} - 4"), lambda x: {**consts, **fenv}.get(x, x) if isinstance(x, str) and not x.isdigit() else int(x))
                if not -50 < v < 200:
                    continue
            nm = f"S{k}_{ctx.events['array_lengths']}"
            extra = "uint8 KA;" if shadow else ""
            r = call(cs.load, f"struct {nm} {{ uint8 fa; uint16 fb; uint8 fc : 3; uint8 pad : 5; {extra} uint16 x[{t}]; uint8 end; }};", compiled=comp)
            if not ctx.check(not isinstance(r, Err), "length-load", lambda: {"length": t, "raised": repr(r)}):
                continue
            unit = fenv["fc"] if order == "little" else fenv["fc"] << 5
            data = bytes([fenv["fa"]]) + fenv["fb"].to_bytes(2, order) + bytes([unit])
            if shadow:
                data += bytes([fenv["KA"]])
            n = max(0, v)
            data += b"\x01\x02" * n + b"\x7f"
            for again in range(2):
                o = call(getattr(cs, nm), data)
                ctx.ev("array_lengths")
                ctx.check(not isinstance(o, Err) and len(o.x) == n and o.end == 0x7F, "length", lambda: {
                    "length": t, "fields": fenv, "constants": consts, "expected": n, "got": repr(o), "mode": mode_name(comp)})
        ctx.key("callers", i, k)


QUICK_FACTOR = 3
WORKLOADS = {
    "shapes": (w_shapes, lambda: n_blocks(QUICK_LEN), lambda: n_blocks(THOROUGH_LEN)),
    "trees": (w_trees, 600, 12000),
    "literals": (w_literals, 23, 23 * 4),
    "identifiers": (w_identifiers, 60, 1000),
    "history": (w_history, 500, 10000),
    "callers": (w_callers, 200, 4000),
}
EXHAUSTIVE = ("workload shapes: every well-formed arrangement of operands, unary operators, binary operators and parentheses up to 9 tokens "
              "(11 thorough); with up to two binary operators, every choice of the operators")
