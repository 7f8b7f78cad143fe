#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in tools/seeds/*.py (development aid; no check reads either).
A definition: S += [dict(id, property, needs, breaks, pkg, edits=[(file, old, new)], demo=GO TEST SOURCE, flags='')]"""
import glob, json, os, subprocess, sys, tempfile, shutil
here = os.path.dirname(os.path.abspath(__file__))
out = os.path.join(os.path.dirname(here), 'seeded')
only = set(sys.argv[1:])
HIDE = {'chans': 'chans/shard_chan_test.go', 'flow': 'flow/processor_test.go'}
S = []
for f in sorted(glob.glob(here + '/seeds/*.py')):
    exec(open(f).read())
for s in S:
    if only and s['id'] not in only: continue
    d = f"{out}/{s['id']}"
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='mkseed')
    subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
    subprocess.run(['git', 'clone', '-q', '/repo', tmp + '/r'], check=True)
    for fn, old, new in s['edits']:
        p = f'{tmp}/r/{fn}'
        t = open(p).read()
        assert t.count(old) >= 1, (s['id'], 'no such text', old)
        open(p, 'w').write(t.replace(old, new, 1))
    diff = subprocess.run(['git', '-C', tmp + '/r', 'diff'], capture_output=True, text=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    shutil.rmtree(tmp)
    open(d + '/demo_test.go', 'w').write(s['demo'].lstrip())
    pkg = s['pkg']
    hide = f',\\"$PWD/{HIDE[pkg]}\\":\\"\\"' if pkg in HIDE else ''
    open(d + '/demo.sh', 'w').write(f'''#!/bin/bash
# Runs demo_test.go inside package {pkg} (through an overlay, nothing is written to the tree).
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -r "$tmp"' EXIT
echo "{{\\"Replace\\":{{\\"$PWD/{pkg}/zz_demo_test.go\\":\\"$here/demo_test.go\\"{hide}}}}}" > "$tmp/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run '^TestDemo$' {s.get('flags','')} ./{pkg}
''')
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print(s['id'])
