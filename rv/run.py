"""Driver: runs a property's monitor over its workloads, judges, writes evidence and replay files.

usage: python -m rv.run CNN [--tier quick|thorough] [--seed N] [--replay FILE] [--only WORKLOAD[:INDEX]] [--scale X]

Verdicts: exit 0 held on everything observed, exit 1 violated (VIOLATION line), exit 2 inconclusive or harness error.
"""
from __future__ import annotations

import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import resource
import signal
import sys
import time
import traceback
from collections import Counter

from . import boot
from . import lib

VERIF = boot.VERIF
EVIDENCE = os.environ.get("RV_EVIDENCE", os.path.join(VERIF, "evidence"))
REPLAYS = os.environ.get("RV_REPLAYS", os.path.join(VERIF, "replays"))
KNOWN = os.path.join(VERIF, "known_findings.txt")
SOFT_WALL = {"quick": 400.0, "thorough": 720.0}
CASE_CPU = 20.0          # CPU seconds of one case before it is set aside as inconclusive
STEP_LIMIT = 3_000_000   # lines of library code one case may execute
MAX_VIOLATIONS = 4       # per worker


class Stop(Exception):
    pass


class Ctx:
    """What a monitor sees while it runs one case."""

    def __init__(self, mod, tier, seed):
        self.mod, self.tier, self.seed = mod, tier, seed
        self.events = Counter()
        self.keys = set()
        self.violations = []
        self.known_hits = Counter()
        self.samples = []
        self.known = {}
        self.cases = 0
        self.timeouts = []
        self.workload = None
        self.index = None
        self.rng = None
        self.replaying = False

    # -- recording
    def ev(self, name, n=1):
        self.events[name] += n

    def key(self, *parts):
        """Record a distinct non-trivial case."""
        h = hashlib.blake2b(repr(parts).encode(), digest_size=8).digest()
        self.keys.add(int.from_bytes(h, "big"))

    def sample(self, obj, every=1):
        if len(self.samples) < 3 and (self.index % 7 == 3 or not self.samples):
            self.samples.append({"workload": self.workload, "index": self.index, **obj})

    def fail(self, kind, detail=None, known=None):
        """A violation was observed.  `known` names the mechanism when it may be listed as a known finding."""
        if known is not None and known in self.known:
            self.known_hits[known] += 1
            return
        self.violations.append(
            {"kind": kind, "workload": self.workload, "index": self.index, "detail": jsonable(detail or {})})
        if len(self.violations) >= MAX_VIOLATIONS:
            raise Stop

    def check(self, ok, kind, detail=None, known=None):
        self.events["checks"] += 1
        if not ok:
            self.fail(kind, detail() if callable(detail) else detail, known)
        return ok

    def thorough(self):
        return self.tier == "thorough"


def jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in list(x)[:60]]
    if isinstance(x, (bytes, bytearray)):
        return bytes(x).hex() if len(x) <= 400 else bytes(x[:400]).hex() + f"...({len(x)} bytes)"
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, int):
        return x if abs(x) < 1 << 53 else str(x)
    if isinstance(x, float):
        return repr(x)
    if isinstance(x, str):
        return x[:6000]
    return repr(x)[:500]


# ---------------------------------------------------------------------------------------------- line coverage


class Coverage:
    """Which lines of the library the workload reached (sys.monitoring, one event per line)."""

    TOOL = 5

    def __init__(self):
        self.hits = set()

    def start(self):
        mon = getattr(sys, "monitoring", None)
        if mon is None:
            return
        try:
            mon.use_tool_id(self.TOOL, "rv-coverage")
        except ValueError:
            return

        def on_line(code, line):
            fn = code.co_filename
            if fn.startswith(boot.PKG_DIR):
                self.hits.add((fn[len(boot.PKG_DIR):], line))
            return mon.DISABLE

        mon.register_callback(self.TOOL, mon.events.LINE, on_line)
        mon.set_events(self.TOOL, mon.events.LINE)


def executable_lines(rel):
    path = os.path.join(boot.PKG_DIR, rel)
    with open(path) as fh:
        top = compile(fh.read(), path, "exec")
    lines = set()

    def rec(code):
        if code.co_name != "<module>":
            lines.update(ln for _, _, ln in code.co_lines() if ln is not None and ln != code.co_firstlineno)
        for c in code.co_consts:
            if hasattr(c, "co_lines"):
                rec(c)

    rec(top)
    return lines


# ---------------------------------------------------------------------------------------------- steps


StepLimit = lib.StepLimit


def count_steps(fn, limit):
    """Run fn; StepLimit when library code executes more than `limit` lines (a bound in logical steps, not time)."""
    mon = sys.monitoring
    tool = 4
    mon.use_tool_id(tool, "rv-steps")
    n = 0

    def on_line(code, line):
        nonlocal n
        fn_ = code.co_filename
        if not fn_.startswith(boot.PKG_DIR) and "compiled" not in fn_:
            return mon.DISABLE
        n += 1
        if n > limit:
            n = 0
            raise StepLimit
        return None

    mon.register_callback(tool, mon.events.LINE, on_line)
    mon.set_events(tool, mon.events.LINE)
    try:
        fn()
    finally:
        mon.set_events(tool, 0)
        mon.register_callback(tool, mon.events.LINE, None)
        mon.free_tool_id(tool)


# ---------------------------------------------------------------------------------------------- execution


def on_alarm(signum, frame):
    raise lib.CaseTimeout


def run_case(ctx, workload, index):
    fn = ctx.mod.WORKLOADS[workload][0]
    ctx.workload, ctx.index = workload, index
    ctx.rng = random.Random(f"{ctx.seed}:{ctx.mod.PID}:{workload}:{index}")
    ctx.cases += 1
    fn(ctx, index)


def from_library(e):
    """Was the exception raised while library code (or code it generated) was running?"""
    tb = e.__traceback__
    if isinstance(e, Stop):
        return False
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(boot.PKG_DIR) or fn.startswith("<compiled"):
            return True
        tb = tb.tb_next
    return False


def guarded_case(ctx, workload, index):
    before = len(ctx.violations)
    cpu = getattr(ctx.mod, "CASE_CPU", CASE_CPU)
    signal.setitimer(signal.ITIMER_PROF, cpu)
    try:
        run_case(ctx, workload, index)
        return
    except lib.CaseTimeout:
        pass
    except Exception as e:
        if not from_library(e):
            raise
        # an operation that never fails on correct code failed inside the library
        ctx.fail("unexpected-exception", {"raised": f"{type(e).__name__}: {e}"[:300],
                                          "trace": traceback.format_exc()[-1500:]})
        return
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    # too slow: decide on logical steps whether the library stopped making progress
    del ctx.violations[before:]
    if not getattr(ctx.mod, "COUNT_STEPS", True):
        ctx.timeouts.append(f"{workload}:{index}")
        return
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU * 6)
    try:
        count_steps(lambda: run_case(ctx, workload, index), STEP_LIMIT)
    except StepLimit:
        ctx.fail("no-progress", {"what": f"the library executed more than {STEP_LIMIT} lines in one small case"})
    except lib.CaseTimeout:
        ctx.timeouts.append(f"{workload}:{index}")
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def worker(mod_name, tier, seed, jobs, deadline, known, conn, cov_on):
    code = 0
    try:
        signal.signal(signal.SIGPROF, on_alarm)
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        mod = importlib.import_module(mod_name)
        ctx = Ctx(mod, tier, seed)
        ctx.known = known
        cov = Coverage()
        if cov_on:
            cov.start()
        err = None
        done = 0
        try:
            for workload, index in jobs:
                if time.monotonic() > deadline:
                    break
                guarded_case(ctx, workload, index)
                done += 1
        except Stop:
            pass
        except BaseException:  # noqa: BLE001
            err = f"{ctx.workload}:{ctx.index}\n" + traceback.format_exc()
        conn.send({
            "events": ctx.events, "keys": ctx.keys, "violations": ctx.violations, "samples": ctx.samples,
            "known": ctx.known_hits, "cases": ctx.cases, "timeouts": ctx.timeouts, "err": err, "hits": cov.hits,
            "skipped": len(jobs) - done,
        })
    except BaseException:  # noqa: BLE001
        code = 3
        traceback.print_exc()
    finally:
        conn.close()
        os._exit(code)


def load_known():
    """known_findings.txt -> {property: {mechanism: text}} for the open entries."""
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as fh:
            for line in fh:
                line = line.strip()
                if not line.startswith("known: property="):
                    continue
                rest = line[len("known: property="):]
                pid, _, rest = rest.partition(" ")
                mech, _, text = rest.partition(" ")
                out.setdefault(pid, {})[mech.removeprefix("key=")] = text
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=float(os.environ.get("RV_SCALE", "1")))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("RV_JOBS", "0")) or min(8, os.cpu_count() or 1))
    ap.add_argument("--no-cov", action="store_true")
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args(argv)
    if a.selftest:
        n = 0
        for f in sorted(os.listdir(os.path.dirname(os.path.abspath(__file__)))):
            if f.endswith(".py"):
                importlib.import_module("rv." + f[:-3])
                n += 1
        print(f"{n} modules import, code under test from {boot.PKG_DIR}")
        return 0
    if a.tier not in SOFT_WALL:
        a.tier = "quick"

    mod_name = f"rv.{a.property.lower()}"
    mod = importlib.import_module(mod_name)
    pid = mod.PID
    known = load_known().get(pid, {})

    if a.replay or (a.only and ":" in a.only):
        if a.replay:
            with open(a.replay) as fh:
                r = json.load(fh)
            wl, ix, a.seed, a.tier = r["workload"], r["index"], r["seed"], r["tier"]
        else:
            wl, ix = a.only.split(":")
            ix = int(ix)
        ctx = Ctx(mod, a.tier, a.seed)
        ctx.known = known
        ctx.replaying = True
        signal.signal(signal.SIGPROF, on_alarm)
        try:
            guarded_case(ctx, wl, ix)
        except Stop:
            pass
        for v in ctx.violations:
            print(f"VIOLATION property={pid} replay={a.replay or a.only}")
            print(json.dumps(v, indent=1)[:6000])
        print(dict(ctx.events))
        return 1 if ctx.violations else 0

    t0 = time.monotonic()
    jobs = []
    for wl, (fn, nq, nt) in mod.WORKLOADS.items():
        if a.only and wl != a.only:
            continue
        n = nq if a.tier == "quick" else nt
        more = getattr(mod, "QUICK_FACTOR", 1) if a.tier == "quick" else 1
        n = n() if callable(n) else max(1, int(n * more * a.scale)) if n else 0
        jobs.extend((wl, i, i / n) for i in range(n))
    # all workloads advance together, so that the wall cap cuts each of them proportionately
    jobs = [(wl, i) for wl, i, _ in sorted(jobs, key=lambda j: j[2])]
    deadline = t0 + SOFT_WALL[a.tier]
    nproc = max(1, min(a.jobs, len(jobs)))
    procs = []
    fork = mp.get_context("fork")
    for w in range(nproc):
        rx, tx = fork.Pipe(False)
        p = fork.Process(target=worker,
                         args=(mod_name, a.tier, a.seed, jobs[w::nproc], deadline, known, tx, not a.no_cov))
        p.start()
        tx.close()
        procs.append((p, rx))

    events, keys, hits = Counter(), set(), set()
    violations, samples, timeouts, errs = [], [], [], []
    known_hits = Counter()
    cases = skipped = 0
    for p, rx in procs:
        try:
            # generous watchdog; its firing is inconclusive, never a violation
            if not rx.poll(max(1.0, deadline + 300 - time.monotonic())):
                errs.append("worker gave no answer in time")
                p.kill()
                p.join()
                continue
            r = rx.recv()
        except EOFError:
            errs.append("worker died")
            p.join()
            continue
        p.join()
        events.update(r["events"])
        keys |= r["keys"]
        hits |= r["hits"]
        violations += r["violations"]
        samples += r["samples"]
        timeouts += r["timeouts"]
        known_hits.update(r["known"])
        cases += r["cases"]
        skipped += r["skipped"] if not r["violations"] else 0
        if r["err"]:
            errs.append(r["err"])

    cov = {}
    for rel in getattr(mod, "ANCHORS", []):
        try:
            lines = executable_lines(rel)
        except OSError:
            continue
        got = {ln for f, ln in hits if f == rel}
        cov[rel] = f"{len(got & lines)}/{len(lines)} lines inside functions"

    # deterministic witnesses of the listed findings
    for mech, text in sorted(known.items()):
        probe = getattr(mod, "PROBES", {}).get(mech)
        if probe is None or probe():
            print(f"KNOWN-FINDING: property={pid} {text}")

    unreached = [r for r in getattr(mod, "REQUIRED", []) if not events.get(r)]
    wall = time.monotonic() - t0

    print(f"{pid} tier={a.tier} seed={a.seed}: {cases} cases, {len(keys)} distinct non-trivial, "
          f"{events.get('checks', 0)} oracle decisions, {wall:.1f}s")
    for k, n in sorted(events.items()):
        print(f"  {k}: {n}")

    ordered = sorted(violations, key=lambda v: (v["workload"], v["index"]))
    replay = None
    kinds = []
    if ordered:
        os.makedirs(REPLAYS, exist_ok=True)
        for v in ordered:
            if v["kind"] in kinds:
                continue
            kinds.append(v["kind"])
            safe = "".join(c if c.isalnum() or c in "-_" else "_" for c in v["kind"])
            path = os.path.join(REPLAYS, f"{pid}-{safe}.json")
            with open(path, "w") as fh:
                json.dump({"property": pid, "seed": a.seed, "tier": a.tier, **v}, fh, indent=1)
            replay = path
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  kind={v['kind']} case={v['workload']}:{v['index']} " + json.dumps(v["detail"])[:3000])
    for e in errs[:3]:
        print("HARNESS ERROR:", e)
    if timeouts:
        print("inconclusive (too slow):", timeouts[:10])
    if unreached:
        print("INCONCLUSIVE: never observed:", unreached)

    os.makedirs(EVIDENCE, exist_ok=True)
    ev = {
        "property": pid, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": cases,
            "distinct_nontrivial": len(keys),
            "rule": mod.RULE,
            "samples": [jsonable(s) for s in samples[:12]],
            "oracle_decisions": events.get("checks", 0),
            "events": {k: n for k, n in sorted(events.items()) if k != "checks"},
            "anchored_lines_reached": cov,
            "cases_set_aside_as_too_slow": timeouts,
            "cases_skipped_at_wall_cap": skipped,
            "known_finding_hits": dict(known_hits),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    if getattr(mod, "EXHAUSTIVE", None):
        ev["coverage"]["enumerated_completely"] = mod.EXHAUSTIVE
    tmp = os.path.join(EVIDENCE, f".{pid}.{os.getpid()}.tmp")
    with open(tmp, "w") as fh:
        json.dump(ev, fh, indent=1)
    os.replace(tmp, os.path.join(EVIDENCE, f"{pid}.json"))

    if violations:
        return 1
    if errs or unreached or not cases or len(timeouts) > max(2, cases // 100):
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
