#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
mc = "exhaustive stateless model checking of the real openraft code (deterministic runtime, all scenarios x all bounded combinations of scheduling, network, disk and crash choices; monitors on every execution)"
st = "explicit-state exploration against a reference model: all operation sequences up to a depth and all transitions of the model's state graph replayed on the real stores, with exhaustive enumeration of crash points"
notes = {
 "C23": "Every sequence of storage operations up to a depth, and every operation in every reachable state of the reference model, executed on the real stores and compared after each operation; every file-system call as a crash point (kill, torn write, power failure).",
 "C01": "All single departures on all scenarios, all pairs on election scenarios, all operation sequences up to a depth.",
}
IDS = ["C%02d" % i for i in range(1, 25)]
NA = {
}
checks = []
for i in IDS:
    if i in NA:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"bash check.sh {i} quick",
        "thorough_cmd": f"bash check.sh {i} thorough",
        "technique": st if i == "C23" else mc,
        "level": "model_checking",
        "level_note": notes.get(i, "Exhaustive within the stated scenarios and deviation bounds; the implementation itself is executed, no model in between."),
    })
m = {
 "version": 1,
 "setup_cmd": "bash mc/build.sh && MC_SINGLE_TERM=1 bash mc/build.sh && bash st/build.sh",
 "hooks": {"guard": "--cfg openraft_mc", "enable": "RUSTFLAGS=\"--cfg openraft_mc\" (mc/build.sh; only the enumerations of parts of the code on their own need it, the rest builds without)", "source_commits": ["9f97c68", "d7683ae"]},
 "checks": checks,
 "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
 "notes": "Known findings: known_findings.txt. Design: DESIGN.md. Replay a violation: mc/target/release/mc replay FILE (C23: st/target/release/st replay FILE).",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
