#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
NOTE = {
 "C02": "No report from AddressSanitizer, valgrind memcheck or Miri (64-bit, 32-bit, big-endian) and no leak on the executions observed; trusts those tools. Miri sees a slice of the workload per run.",
 "C04": "Every recorded call agreed between the two builds and none panicked or allocated without heap support; sampled numbers and histories.",
 "C23": "Every observed number gave one result in all types, natively and under Miri with 32-bit pointers; sampled numbers.",
 "C26": "Every repeated call agreed with the call made alone, under native stress, ThreadSanitizer and several Miri schedules; only schedules that occurred were observed.",
}
MODEL = "Every executed call agreed with an independent specification; numbers beyond the dense ranges are sampled. Trusts the harness's specification, rustc and std."
T = {
 "C01": "runtime monitor: differential oracle (std String) over operation histories",
 "C02": "sanitizers: AddressSanitizer, valgrind memcheck, Miri on three targets, leak-counting allocator",
 "C03": "runtime monitor: counting allocator and storage invariant at every step",
 "C04": "runtime monitor: recorded event log of one build checked against the other, counting allocator",
 "C05": "runtime monitor: differential oracle (std str) over text pairs and storage forms",
 "C09": "runtime monitor: hooked collections, law oracle on observed digits and texts",
 "C25": "runtime monitor: offline uniqueness check over the recorded (number, text) log",
 "C26": "runtime monitor of repeated calls under thread stress, ThreadSanitizer, Miri schedules",
 "C27": "runtime monitor: hooked collections counting queries, CPU and memory watchdog",
 "C23": "runtime monitor: differential oracle across integer types, natively and on a 32-bit target under Miri",
 "C24": "runtime monitor: differential oracle across entry points and smart pointers",
 "C22": "runtime monitor: relation between fallible and infallible results, error payloads",
 "C19": "runtime monitor: character-map relation between variants of one number",
 "C20": "runtime monitor: range oracle on results and error payloads",
}
checks = []
for i in range(1, 28):
    c = f"C{i:02}"
    checks.append(dict(property=c, quick_cmd=f"python3 check.py {c}", thorough_cmd=f"python3 check.py {c} thorough",
        evidence_file=f"evidence/{c}.json", technique=T.get(c, "runtime monitor: executed calls checked against an independent specification"),
        level="exploration", level_note=NOTE.get(c, MODEL)))
m = dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=[],
    notes="No hooks: everything is observed through the public API, a counting allocator and sanitizers. Every check rebuilds from /repo's working tree. "
          "The thorough tier adds a third build and a coverage-guided search (libFuzzer) with the same oracles. "
          "Exit 2 means no verdict (build failure, harness failure, too little observed).")
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json")
json.dump(m, open(p, "w"), indent=1, ensure_ascii=False)
