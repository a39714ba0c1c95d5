#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harness modules that exist."""
import json, os, re
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl") if l.strip()]
mods = set(re.findall(r'(c\d\d) "', open(f"{V}/harness/src/lib.rs").read()))
NOTE = {
    "seq": "Decided by CBMC for every value and operation order within the stated history length, over a fixed matrix of "
           "declarations whose generated code is taken from /repo's macros on every run. Trusted: Kani/CBMC, the lock models.",
    "conc": "Decided for all nested interleavings (another thread's whole operation at any lock boundary, depth 2, at most 3 "
            "threads) with symbolic operations and values; overlaps that are not nested, weak memory and lock fairness are outside "
            "the bound. Trusted: Kani/CBMC and the lock models of /verif/models.",
    "async": "Decided for all values over pairs and short sequences of operations, with suspension or cancellation at the builder's and "
             "locks' await points as listed in DESIGN.md. async-trait and tokio's locks are replaced by models of them. Trusted: Kani/CBMC and those replacements.",
}
KIND = {"C03": "conc", "C08": "conc", "C20": "conc", "C04": "async", "C05": "async"}
m = {
    "version": 1,
    "setup_cmd": "python3 run.py --setup",
    "checks": [], "not_applicable": [],
    "notes": "python3 run.py --replay FILE repeats a reported counterexample. known_findings.json lists findings and repairs.",
}
for p in props:
    i = p["id"]
    if i.lower() in mods:
        m["checks"].append({
            "property": i, "quick_cmd": f"python3 run.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {i}",
            "technique": "bounded symbolic execution of the real code with Kani/CBMC (SAT), counterexamples replayed natively",
            "level": "model_checking", "level_note": NOTE[KIND.get(i, "seq")]})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check yet: its harnesses are being written"})
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
