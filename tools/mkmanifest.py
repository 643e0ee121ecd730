"""Writes MANIFEST.json from the monitors that exist (run by hand; the result is committed)."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C01": "round-trip monitor with a reference value model",
    "C02": "byte-fidelity monitor with a data-bit mask from the reference model",
    "C03": "lock-step differential monitor of both readers plus reference model",
    "C04": "layout monitor: reference layout model, ctypes ABI oracle, byte-accounting streams",
    "C05": "codec monitor: arithmetic reference codecs, exhaustive small widths",
    "C06": "bit-slicing reference monitor",
    "C07": "array reference monitor over an element x length-form product",
    "C08": "truncation and fault injection at every cut and read, residue monitor",
    "C09": "recording-stream monitor over offsets, input kinds and call forms",
    "C10": "enumerated and random expressions against a precedence-climbing oracle, re-evaluation histories",
    "C11": "byte-buffer model checked after every step of member-assignment histories",
    "C12": "numbering and value-preservation monitor with a reference model",
    "C13": "metamorphic text rewriting with layout-signature comparison",
    "C14": "operation histories against isolated replicas",
    "C15": "controlled scheduler over real threads at source-line granularity, sequential results as oracle",
    "C16": "recording-stream monitor of dereferences against direct parses",
    "C17": "field-wise reference monitor of equality, hash, truth and byte-local assignment",
    "C18": "incremental versus one-shot construction compared over every split",
    "C19": "re-parsing oracle for hex dumps, ANSI stripper, arithmetic oracle for pack/unpack/swap",
    "C20": "ast-based monitor of generated stubs",
}
NOTE = ("Runtime monitoring: every listed event was observed and judged by an oracle independent of the library; nothing is "
        "claimed about definitions and inputs that were not generated.  Trusts CPython and the reference model in rv/.")
checks, na = [], []
for pid, tech in T.items():
    if os.path.exists(f"{here}/rv/{pid.lower()}.py"):
        checks.append({"property": pid, "quick_cmd": f"./check {pid} --tier quick", "thorough_cmd": f"./check {pid} --tier thorough",
                       "technique": "runtime monitoring: " + tech, "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": pid, "reason": "monitor not built yet"})
json.dump({"version": 1,
           "setup_cmd": "./check --selftest",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo are needed: the monitors use streams, sys.settrace and sys.monitoring."},
          open(f"{here}/MANIFEST.json", "w"), indent=1)
