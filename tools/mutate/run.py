#!/usr/bin/env python3
"""Runs the analyzer on every small mutation of /repo and lists those that
build and that no check reports (candidates for review).

usage: run.py [-f FILEPART] OUT"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
args = sys.argv[1:]
part = ''
if args[0] == '-f':
    part, args = args[1], args[2:]
out = args[0]
axv = os.environ.get('AXV', '/tmp/axv')
here = os.path.dirname(os.path.abspath(__file__))
exe = '/tmp/mutate'
subprocess.run(['go', 'build', '-o', exe, '.'], cwd=here, check=True)
ms = [json.loads(l) for l in subprocess.run([exe, '/repo'], capture_output=True, text=True).stdout.splitlines()]
ms = [m for m in ms if part in m['file']]
env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')
dirs = Queue()
top = tempfile.mkdtemp(prefix='mutate')
for i in range(8):
    d = f'{top}/{i}'
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git'))
    dirs.put(d)

def one(m):
    d = dirs.get()
    f = f"{d}/{m['file']}"
    src = open('/repo/' + m['file'], 'rb').read()
    try:
        open(f, 'wb').write(src[:m['start']] + m['text'].encode() + src[m['end']:])
        b = subprocess.run(['go', 'build', './' + os.path.dirname(m['file'])], cwd=d, env=env, capture_output=True, text=True)
        if b.returncode:
            return m, 'nobuild', ''
        v = subprocess.run([axv, 'all', d], capture_output=True, text=True, env=env)
        ids = sorted({l.split()[0] for l in v.stdout.splitlines() if l and l[0].isupper()})
        return m, 'found' if ids or v.returncode else 'survived', ','.join(ids)
    finally:
        open(f, 'wb').write(src)
        dirs.put(d)

n = {}
with ThreadPoolExecutor(8) as ex, open(out, 'w') as o:
    for m, r, ids in ex.map(one, ms):
        n[r] = n.get(r, 0) + 1
        if r == 'survived':
            o.write(f"{m['file']}:{m['line']}: {m['desc']!r}\n")
            o.flush()
print(n)
shutil.rmtree(top)
