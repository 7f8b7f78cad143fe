#!/usr/bin/env python3
"""Print, for every change in /verif/seeded, the properties whose check reports it."""
import json, os, shutil, subprocess, sys
AXV = os.environ.get("AXV", "/tmp/axv")
out = []
for s in sorted(os.listdir("/verif/seeded")):
    d = "/verif/seeded/" + s
    w = "/tmp/seedtable"
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w, ignore=shutil.ignore_patterns(".git"))
    subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + w, d + "/patch.diff"], cwd="/", check=True)
    r = subprocess.run([AXV, "all", w], capture_output=True, text=True, env=dict(os.environ, AXV_DEBUG="1"))
    ids = sorted({l.split()[0] for l in r.stdout.splitlines() if len(l.split()[0:1]) and len(l.split()[0]) == 3 and l.split()[0][0].isupper()})
    m = json.load(open(d + "/meta.json"))
    own = m["property"]
    out.append((s, own, [i for i in ids if i != own], own in ids, m["needs"]))
    shutil.rmtree(w)
print("| change | breaks | own check | also reported by | needs |\n|---|---|---|---|---|")
for s, own, ids, ok, needs in out:
    print(f"| {s} | {own} | {'caught' if ok else 'MISSED'} | {' '.join(ids) or '-'} | {needs} |")
