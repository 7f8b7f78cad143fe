#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the rules the analyser registers and properties.jsonl."""
import json, os, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
axv = subprocess.run([os.path.join(V, "build.sh")], capture_output=True, text=True, check=True).stdout.split()[-1]
rules = dict(l.split("\t", 1) for l in subprocess.run([axv, "rules"], capture_output=True, text=True, check=True).stdout.splitlines())
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
 "O01": "Upper and lower bounds on wall-clock time depend on the scheduler and on timer latency; no sound static argument over the source bounds them. What is structural about timeouts (which duration arms which timer, when it is reset, that it is answered) is decided under C02, G04, R03, V02, P03, D01 and U02.",
 "O02": "Byte-for-byte equality of a round trip is a functional property of gzip, gob and AES-GCM in the standard library over unbounded data; the source of this repository only calls them. That every step is called completely, in order and with its error checked is decided under A01, A02, F01, F03 and Z01.",
 "O03": "Starvation freedom depends on the fairness of the Go runtime's select and mutexes, which is not in the source of this repository.",
}
checks = [dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough", evidence_file=f"evidence/{i}.json",
    technique="path-sensitive typestate and dataflow analysis over value-numbered Go SSA",
    level="other",
    level_note="Decides, for all paths of the current source: " + rules[i] + ". Trusts the Go type checker and SSA builder, the analyser's models of the standard library, and that loops are represented by one generic iteration.")
    for i in props if i in rules]
na = [dict(property=i, reason=NA.get(i, "No rule of the static analyser decides this property yet.")) for i in props if i not in rules]
json.dump(dict(version=1, setup_cmd="./build.sh", checks=checks, not_applicable=na,
    notes="Static analysis only: nothing of /repo is executed. No hooks in /repo."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
