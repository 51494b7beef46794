#!/usr/bin/env python3
"""Runs checks against planted bugs in private copies: seedrun.py [ID ...] [--checks C01,..] [-j N]; default: each bug's own property"""
import sys, os, subprocess, json, shutil
from concurrent.futures import ThreadPoolExecutor
a = sys.argv[1:]
checks, j, ids = None, 2, []
while a:
    x = a.pop(0)
    if x == '--checks':
        checks = a.pop(0).split(',')
    elif x == '-j':
        j = int(a.pop(0))
    else:
        ids.append(x)
S = '/verif/seeded'
ids = ids or sorted(os.listdir(S))


def one(i):
    W = f'/tmp/pl/run-{i}'
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    subprocess.run(['cp', '-a', '/repo', W + '/repo'], check=True)
    prop = json.load(open(f'{S}/{i}/meta.json'))['property']
    res = []
    for c in checks or [prop]:
        f = f'/verif/checks/{c.lower()}.py'
        if not os.path.exists(f):
            res.append(f'{i} {c} NO CHECK')
            continue
        cmd = (f'mount --bind {W}/repo /repo && mkdir -p {W}/ev {W}/rp && mount --bind {W}/ev /verif/evidence && mount --bind {W}/rp /verif/replays && '
               f'cd /repo && git checkout -q -- . && git apply {S}/{i}/patch.diff && cd /verif && timeout 900 python3 {f} quick')
        r = subprocess.run(['unshare', '-Urm', 'bash', '-c', cmd], capture_output=True, text=True, errors='replace', env=dict(os.environ, VERIF_SEED='1'))
        v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        res.append(f"{i} {c} {'CAUGHT' if r.returncode == 1 and v else 'MISSED'} rc {r.returncode} " + (r.stdout.strip().split('\n')[-1][:200]) + r.stderr[-200:])
    shutil.rmtree(W, ignore_errors=True)
    return '\n'.join(res)


with ThreadPoolExecutor(j) as p:
    for r in p.map(one, ids):
        print(r, flush=True)
