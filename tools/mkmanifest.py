#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: which properties have checks, and why the others have none."""
import json, os, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RT = ("Seeded search over randomly generated programs, surroundings and fault sequences; each is executed by the real compiler, "
      "generated code, runtime library and C library stdio on a simulated kernel, and compared with a small reference model. ")
CC = ("Seeded search over sources, options, faults, kills and interleavings; each compilation is the real compiler under a "
      "simulated layer of system calls, allocator and tools. ")
NOTE = {
    "C01": CC + "Trusts: only damage that the generator draws is seen; LLVM's own aborts on broken functions are tolerated as fail-stop.",
    "C02": CC + "Trusts: the simulated tool stands for clang; real linking is not exercised.",
    "C03": CC + "Trusts: one process image, so that ASLR of code is not varied; heap layout, contents, clock, environment and read sizes are.",
    "C04": CC + "Trusts: interleavings are at system-call granularity.",
    "C05": CC + "Trusts: the simulated tool records its argument vector; the shell is the real one.",
}
NA = {
    "C30": "Evaluating expressions and statements is a function of program and input alone: no schedule, clock, fault, crash or "
           "second party is involved, so there is nothing for a simulator to vary.",
    "C31": "Type checking is a pure function of the source text; neither time, concurrency nor I/O behaviour enters it. (What "
           "faults and damage do to the compiler is C01 to C05.)",
    "C32": "Set, string and mathematical functions are pure functions of their arguments.",
    "C33": "Range checks are pure functions of the values; that the report and what was written before survive is part of C19.",
    "C34": "Tokenisation is a pure function of the source text; damaged and cut-off texts are C01.",
    "C35": "Program parameters are fixed before the program starts; no fault or schedule can reach them.",
    "C36": "A dump or debug information is a pure function of the source; that -g changes no behaviour is C20, reproducibility C03.",
    "C37": "Deciding growth of compile time needs measurement of real time over families of sizes, not schedules or faults; "
           "boundedness on damaged input is C01.",
}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
sys.path.insert(0, V)
from vlib import props as P
have = set(P.ALL)
try:
    from vlib import cprops
    have |= set(cprops.ALL)
except ImportError:
    pass
checks = [{
    "property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
    "technique": "deterministic simulation with fault injection", "level": "exploration",
    "level_note": NOTE.get(p, RT + "Trusts: the simulated kernel's behaviour, the reference model, and that failures show within "
                           "the sizes generated.")} for p in props if p in have]
na = [{"property": p, "reason": NA.get(p, "No check yet.")} for p in props if p not in have]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: all seams are at the system-call, allocator and tool boundary, outside the sources."}
with open(os.path.join(V, "MANIFEST.json"), "w") as o:
    json.dump(m, o, indent=1)
    o.write("\n")
print(len(checks), "checks")
