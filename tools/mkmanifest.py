#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run to regenerate)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("runtime monitor: differential oracle, incremental build vs clean build of the real library under random edit histories", "exploration"),
 "C02": ("runtime monitor: online reference model of permitted steps over traced builds", "exploration"),
 "C03": ("runtime monitor with fault injection: failing tools and callbacks, recovery judged by reference model and clean-build differential", "fault_enumeration"),
 "C04": ("runtime monitor with crash injection: SIGKILL at every command phase and at every state-file operation (interposer), recovery vs clean build", "fault_enumeration"),
 "C05": ("runtime monitor with state corruption: damaged state files and hostile values, clean-build differential", "fault_enumeration"),
 "C06": ("runtime monitor: reference model over generator callback events under edits, failures and concurrent input edits", "exploration"),
 "C07": ("runtime monitor: happens-before and exactly-once checker over traced parallel builds with injected delays", "exploration"),
 "C08": ("runtime monitor: graph oracle over random registration sequences", "exploration"),
 "C09": ("runtime monitor: stage-order and link-content checker over traced builds with injected delays", "exploration"),
 "C10": ("runtime monitor with fault injection: trace checker for dependents, stages, callbacks and exit path", "fault_enumeration"),
 "C11": ("runtime monitor: argv received by the tools vs reference command lines", "exploration"),
 "C12": ("runtime monitor: object-path uniqueness and containment over traced builds of hostile layouts", "exploration"),
 "C13": ("runtime monitor: reference formatter vs observed substitution", "exploration"),
 "C14": ("runtime monitor with fault injection: order and exactly-once checker over generator commands", "exploration"),
 "C15": ("runtime monitor: reference model of target settings vs observed settings", "exploration"),
 "C16": ("runtime monitor: lifetime checker over constructor and destructor events, plus AddressSanitizer and LeakSanitizer", "exploration"),
 "C17": ("runtime monitor: exactly-once and outcome checker over registered tests", "exploration"),
 "C18": ("sanitizers: ThreadSanitizer, AddressSanitizer, UndefinedBehaviorSanitizer and LeakSanitizer over the union of workloads", "exploration"),
 "C19": ("runtime monitor with I/O fault injection: reported results vs bytes on disk", "fault_enumeration"),
 "C20": ("runtime monitor: directory-scan oracle over random tool layouts", "exploration"),
 "C21": ("runtime monitor: reference of option values and registration gates vs observed", "exploration"),
 "C22": ("runtime monitor: compile_commands.json vs commands actually executed", "exploration"),
 "C23": ("runtime monitor: reported status and output vs what child processes recorded", "exploration"),
 "C24": ("runtime monitor: template outputs vs reference substitution over edit histories", "exploration"),
 "C25": ("runtime monitor: reference of extension classes, globbing and path normal form vs observed", "exploration"),
 "C26": ("runtime monitor: commands, order, status and files of the real buildexe against a reference of its configuration", "exploration"),
 "C27": ("runtime monitor: output of the programs built with the host's gcc vs the value of their current inputs, computed independently", "exploration"),
 "C28": ("runtime monitor: answers of builders and drawn task graph vs declarations, executed steps and files", "exploration"),
}
NOTE = "Held on every execution explored (counts, distinct states and samples are in the evidence file); real library code rebuilt from /repo, fake compiler tools and a stand-in for the absent tiny-process-library are trusted."
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": T[i][0], "level": T[i][1], "level_note": NOTE})
    else:
        na.append({"property": i, "reason": "not claimed yet: its monitor is still being built"})
m = {"version": 1, "setup_cmd": "python3 -c 'import sys; assert sys.version_info >= (3, 8)'", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is observed at the process, file and callback boundary. Repairs are the fix: commits listed in known_findings.json."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
