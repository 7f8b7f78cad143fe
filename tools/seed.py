#!/usr/bin/env python3
"""Confirm seeded bugs: seed.py [-a ANALYZER] ID...   (scratch copies only)
For each: patch applies, builds, stable tests pass (optional -t), demo passes without and fails with it,
and which rules report it."""
import json, os, subprocess, sys, tempfile, shutil
ROOT = '/verif/seeded'
args = sys.argv[1:]
tests = '-t' in args
ids = [a for a in args if not a.startswith('-')] or sorted(os.listdir(ROOT))
env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off')
def run(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
for i in ids:
    d = f'{ROOT}/{i}'
    meta = json.load(open(d + '/meta.json'))
    tmp = tempfile.mkdtemp(prefix='seed')
    try:
        repo = tmp + '/repo'
        shutil.copytree('/repo', repo)
        dd = tmp + '/demo'
        shutil.copytree(d, dd)
        r0 = run(f'bash {dd}/demo.sh', cwd=repo)
        a = run(f'git apply {d}/patch.diff', cwd=repo)
        b = run('go build ./...', cwd=repo)
        r1 = run(f'bash {dd}/demo.sh', cwd=repo)
        t = ''
        out = run(f'/tmp/axv all {repo}')
        caught = sorted({l.split('property=')[1].split()[0] for l in out.stdout.splitlines() if l.startswith('VIOLATION')}) or \
            sorted({l.split()[0] for l in out.stdout.splitlines() if l and l[0].isupper() and l[1:3].isdigit()})
        ok = r0.returncode == 0 and a.returncode == 0 and b.returncode == 0 and r1.returncode != 0
        print(i, meta['property'], 'ok' if ok else f'BAD clean={r0.returncode} apply={a.returncode} build={b.returncode} bug={r1.returncode}',
              'caught by', caught)
        if not ok:
            print(r0.stdout[-1500:], a.stdout, b.stdout, r1.stdout[-800:])
    finally:
        shutil.rmtree(tmp)
