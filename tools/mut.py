#!/usr/bin/env python3
"""Screens candidate changes: mut.py SPECS.py [-j N] [-k SUBSTR]   SPECS.py defines M = [(id, 'C01,C02', [(file, old, new), ..]), ..]
Each change is made in a private copy mounted over /repo; the named checks run there. No demonstration, no test run (see plant.py)."""
import sys, os, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
spec = {}
exec(open(sys.argv[1]).read(), spec)
j, k = 2, ''
a = sys.argv[2:]
while a:
    x = a.pop(0)
    if x == '-j': j = int(a.pop(0))
    elif x == '-k': k = a.pop(0)


def one(m):
    i, checks, edits = m
    W = f'/tmp/pl/mut-{i}'
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W + '/ev'); os.makedirs(W + '/rp')
    subprocess.run(['cp', '-a', '/repo', W + '/repo'], check=True)
    for f, old, new in edits:
        p = f'{W}/repo/{f}'
        s = open(p, encoding='latin-1').read()
        if s.count(old) != 1:
            return f'{i}: EDIT NOT UNIQUE {f} {s.count(old)}'
        open(p, 'w', encoding='latin-1').write(s.replace(old, new))
    res = []
    for c in checks.split(','):
        cmd = (f'mount --bind {W}/repo /repo && mount --bind {W}/ev /verif/evidence && mount --bind {W}/rp /verif/replays && '
               f'cd /verif && timeout 900 python3 checks/{c.lower()}.py quick')
        r = subprocess.run(['unshare', '-Urm', 'bash', '-c', cmd], capture_output=True, text=True, errors='replace', env=dict(os.environ, VERIF_SEED='1'))
        v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        res.append(f"{i} {c} {'CAUGHT' if r.returncode == 1 and v else 'MISSED'} rc {r.returncode} " + (r.stdout.strip().split('\n')[-1][:150]) + r.stderr[-200:])
    shutil.rmtree(W, ignore_errors=True)
    return '\n'.join(res)


with ThreadPoolExecutor(j) as p:
    for x in p.map(one, [m for m in spec['M'] if k in m[0]]):
        print(x, flush=True)
