#!/usr/bin/env python3
"""Write MANIFEST.json: one check per property that has a monitor binary."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "default": "runtime monitoring: the built crate runs under generated hostile workloads and an online monitor compares every call's observed result with an exact big-integer reference model; overflow/debug-assertion instrumented build",
    "E03": "runtime monitoring: every call is made natively, in WebAssembly (32-bit, overflow checks) and under the Miri undefined-behaviour interpreter (32- and 64-bit big-endian targets; 64-bit with aliasing checks) and the complete answers are compared online",
    "E02": "runtime monitoring: every call is answered a second time by the processor's own instructions (SSE, FMA, F16C, x87; flags read back) or by Rust's core library and compared online; overflow/debug-assertion instrumented build",
    "E04": "runtime monitoring: every call is answered a second time by the C library (glibc libm, strto*/strfrom*, libgcc soft-float; rounding mode set, flags read back) and compared online; overflow/debug-assertion instrumented build",
    "E05": "runtime monitoring with fault injection: formatting runs into sinks that fail at chosen bytes or re-enter the library, and an online monitor compares what arrived and what was returned with independently laid-out text; overflow/debug-assertion instrumented build",
    "E01": "runtime monitoring: heap, stack and CPU meters around every call under hostile texts",
}
checks, missing = [], []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)
    pid = p["id"]
    if os.path.exists(os.path.join(ROOT, "harness/src/bin", pid.lower() + ".rs")):
        checks.append({
            "property": pid,
            "quick_cmd": "python3 check.py " + pid,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s --thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": TECH.get(pid, TECH["default"]),
            "level": "exploration",
            "level_note": "Held on the executions listed in the evidence file (operations x formats x modes x outcome classes, small formats exhaustively where counted), never proved. Trusts the reference model (harness/src/model.rs, big.rs), rustc, and that the workload reaches the code that matters; coverage gates make an under-driven run inconclusive rather than passing.",
        })
    else:
        missing.append({"property": pid, "reason": "monitor not built yet"})
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": checks,
    "not_applicable": missing,
    "notes": "No hooks are needed in /repo: everything monitored is observable through the public API. The fix: commits in /repo are listed in known-findings.txt. Replay a violation with: python3 check.py ID --replay replays/FILE.json",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
