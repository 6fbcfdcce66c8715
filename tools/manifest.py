#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import scenarios  # noqa: E402

TECH = ("symbolic execution of rustc's LLVM IR of the real code (inputs, choice of operations and the schedule of atomic "
        "operations symbolic), z3 decides every branch and assertion; counterexamples replayed natively")
NOTE = ("Bounded: holds for every value of the symbolic inputs and every schedule within: %s. Trusted: the engine's semantics of "
        "LLVM IR (checked by replaying executions natively), the model of seize, z3; interleaving semantics of atomics, no weak memory%s.")
checks = []
for p in sorted(scenarios.PROPS):
    s = scenarios.PROPS[p]
    checks.append({
        "property": p,
        "quick_cmd": "python3 tools/check.py %s quick" % p,
        "thorough_cmd": "python3 tools/check.py %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": TECH,
        "level": "model_checking",
        "level_note": NOTE % (s["bounds"], " (races are judged by the happens-before relation of the declared orderings)" if p == "C02" else ""),
    })
m = {
    "version": 1,
    "setup_cmd": "python3 tools/check.py setup",
    "checks": checks,
    "not_applicable": [],
    "hooks": {
        "guard": "cfg papaya_verif",
        "enable": "RUSTFLAGS=--cfg papaya_verif in the build of /verif/harness (tools/check.py); the harness then chooses how many slots a blocking resize copies at a time",
        "source_commits": [c for c in os.popen("git -C /repo log --format=%H --grep=^hook:").read().split()],
    },
    "notes": "The checks use papaya's public API, and replace the crate seize by a model with [patch.crates-io] in /verif/harness.",
}
with open(os.path.join(HERE, "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
