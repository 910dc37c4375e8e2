#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and harness/plan.py."""
import json, os, sys
R = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(R, "harness"))
from plan import PLAN
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
T = "runtime monitoring: "
TECH = {
    "C03": T + "differential monitor (sequential vs parallel) under a controlled, seeded OpenMP scheduler with AddressSanitizer, plus libgomp runs",
    "C04": T + "ThreadSanitizer over an instrumented OpenMP runtime with injected delays; per-copy write monitors in user callbacks",
    "C08": T + "online trace-specification checker in the evaluator callbacks, under AddressSanitizer and a controlled scheduler",
    "C09": T + "independent exact arithmetic as oracle, under AddressSanitizer",
    "C11": T + "history monitor re-checking every live object after every operation, under AddressSanitizer and a controlled scheduler",
    "C12": T + "per-address object life-cycle monitor and heap accounting, under AddressSanitizer and a controlled scheduler",
    "C14": T + "independent parsers of the printed texts, joint walk with the reference automaton, under AddressSanitizer",
    "C15": T + "reference-model oracle over generated graphs and (mutated) texts under Address- and UndefinedBehaviorSanitizer",
    "C16": T + "exhaustive-enumeration oracle per generated graph under Address- and UndefinedBehaviorSanitizer",
    "C17": T + "exhaustive-enumeration oracle per generated graph under Address- and UndefinedBehaviorSanitizer",
    "C18": T + "exhaustive-enumeration oracle per generated constraint under Address- and UndefinedBehaviorSanitizer",
    "C20": T + "model-based operation histories under Address- and UndefinedBehaviorSanitizer",
    "C21": T + "sanitized programs run on generated inputs, output judged against brute force",
    "C23": T + "exact package stand-ins that monitor every call (concurrent entry, references, variables), canonical-form and truth-table oracles, AddressSanitizer and controlled scheduler",
    "C25": T + "captured message log checked offline against the operations performed, differential runs with messages off, accelerated clock, Address- and ThreadSanitizer",
    "C24": T + "sanitized programs with a monitoring CUDD stand-in run on generated CNF files, output judged against brute force; memcheck",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        checks.append({"property": i, "quick_cmd": "python3 run.py check %s quick" % i, "thorough_cmd": "python3 run.py check %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": PLAN[i].get("technique") or TECH.get(i, "runtime monitoring: reference-model oracle over randomised workloads under AddressSanitizer and a controlled OpenMP scheduler"),
                       "level": "exploration", "level_note": PLAN[i].get("note", "Held on the executions explored; assumes the compiler, the sanitizers and the independent reference model are right.")})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every monitor observes through the public interface, callbacks, sanitizers or a replacement OpenMP runtime."},
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
