#!/usr/bin/env python3
"""Runs the analyzer on mechanical behaviour-preserving edits of /repo and
lists those on which a check raises an alarm.

usage: refactor.py [-f FILEPART] [-k KINDPART] [-n EVERYNTH] OUT"""
import argparse, collections, json, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
ap = argparse.ArgumentParser()
ap.add_argument('-f', default=''); ap.add_argument('-k', default=''); ap.add_argument('-n', type=int, default=1)
ap.add_argument('-o', type=int, default=0); ap.add_argument('-l', type=int, default=0)
ap.add_argument('out')
a = ap.parse_args()
axv = os.environ.get('AXV', '/tmp/axv')
here = os.path.dirname(os.path.abspath(__file__))
exe = '/tmp/refactor'
env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off')
subprocess.run(['go', 'build', '-o', exe, './cmd/refactor'], cwd=here + '/../analyzer', env=dict(env, GOFLAGS='-mod=vendor', GOWORK='off'), check=True)
env['GOFLAGS'] = '-mod=mod'
cs = [json.loads(l) for l in subprocess.run([exe, '/repo'], capture_output=True, text=True, env=env).stdout.splitlines()]
cs = [c for c in cs if a.f in c['file'] and a.k in c['kind'] and (not a.l or c['line'] == a.l)][a.o::a.n]
dirs = Queue()
top = tempfile.mkdtemp(prefix='refactor')
for i in range(8):
    d = f'{top}/{i}'
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git'))
    dirs.put(d)

def apply(src, edits):
    for e in sorted(edits, key=lambda e: -e['start']):
        src = src[:e['start']] + e['text'].encode() + src[e['end']:]
    return src

def one(c):
    d = dirs.get()
    f = f"{d}/{c['file']}"
    src = open('/repo/' + c['file'], 'rb').read()
    try:
        open(f, 'wb').write(apply(src, c['edits']))
        b = subprocess.run(['go', 'build', './' + os.path.dirname(c['file'])], cwd=d, env=env, capture_output=True, text=True)
        if b.returncode:
            return c, 'nobuild', b.stderr
        v = subprocess.run([axv, 'all', d], capture_output=True, text=True, env=env)
        bad = [l for l in v.stdout.splitlines() if l and l[0].isupper()]
        return c, 'alarm' if bad or v.returncode else 'quiet', '\n'.join('      ' + l[:260] for l in bad[:3]) or v.stderr[-300:]
    finally:
        open(f, 'wb').write(src)
        dirs.put(d)

n = collections.Counter()
with ThreadPoolExecutor(8) as ex, open(a.out, 'w') as o:
    for c, r, text in ex.map(one, cs):
        n[c['kind'], r] += 1
        if r == 'alarm':
            o.write(f"{c['file']}:{c['line']}: {c['kind']}\n{text}\n")
            o.flush()
for k in sorted(n):
    print(*k, n[k])
shutil.rmtree(top)
