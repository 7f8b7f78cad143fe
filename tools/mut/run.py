#!/usr/bin/env python3
"""Development aid: applies small source edits to scratch copies of /repo and runs every rule on each.
Usage: run.py [FILE.py ...] [-k NAME]; a FILE defines M = [(name, expect, [(file, old, new), ...]), ...] where expect is
the set of property ids that must report ("" = all must stay quiet)."""
import sys, os, glob, shutil, subprocess, tempfile, concurrent.futures as cf
here = os.path.dirname(os.path.abspath(__file__))
axv = os.environ.get("AXV", "/tmp/axv")
args = sys.argv[1:]
pat = None
verbose = "-v" in args
if verbose: args.remove("-v")
if "-k" in args:
    i = args.index("-k"); pat = args[i+1]; del args[i:i+2]
files = args or sorted(f for f in glob.glob(here + "/*.py") if not f.endswith("run.py"))
muts = []
for f in files:
    ns = {}
    exec(open(f).read(), ns)
    muts += ns["M"]
def one(m):
    name, expect, edits = m
    d = tempfile.mkdtemp(prefix="mut")
    try:
        subprocess.run(["cp", "-a", "/repo/.", d + "/r"] if False else ["rsync", "-a", "--exclude=.git", "/repo/", d + "/r/"] if shutil.which("rsync") else ["cp", "-a", "/repo/.", d + "/"], check=True)
        root = d + "/r" if os.path.exists(d + "/r") else d
        for fn, old, new in edits:
            p = os.path.join(root, fn)
            if old is None:
                open(p, "w").write(new)
                continue
            s = open(p).read()
            if old not in s:
                return name, "EDIT DOES NOT APPLY: " + old[:60], ""
            s = s.replace(old, new) if new is not None else s
            open(p, "w").write(s)
        b = subprocess.run(["go", "vet", "-composites=false", "-copylocks=false", "./..."] if False else ["go", "build", "./..."], cwd=root, capture_output=True, text=True)
        if b.returncode:
            return name, "DOES NOT BUILD", b.stderr
        r = subprocess.run([axv, "all", root], capture_output=True, text=True)
        got = sorted({l.split()[0] for l in r.stdout.splitlines() if " [" in l})
        want = set(expect.split())
        bad = ""
        if not want and got: bad = "FALSE ALARM"
        if want and not want & set(got): bad = "MISSED"
        elif want - set(got): bad = "(also expected %s)" % ",".join(sorted(want - set(got)))
        return name, bad, "want %s got %s" % (sorted(want), got), r.stdout + r.stderr[-2000:]
    finally:
        shutil.rmtree(d)
muts = [m for m in muts if not pat or pat in m[0]]
with cf.ThreadPoolExecutor(6) as ex:
    n = 0
    for r in ex.map(one, muts):
        if r[1]: n += 1
        print("%-40s %-14s %s" % (r[0], r[1], r[2] if len(r) > 2 else ""))
        if verbose or r[1] == "FALSE ALARM":
            print("\n".join("      " + l for l in (r[3] if len(r) > 3 else "").splitlines()[:12]))
    print(len(muts), "edits,", n, "unexpected")
