#!/usr/bin/env python3
"""Validate a planted bug: plant.py SPEC.py [--checks C01,C02|none] [--keep]

SPEC.py defines: id, prop, edits=[(file, old, new)], needs, breaks, mode ('native'|'top'|'sh'), pl (program text, runs
from main/0 and writes), sh (demo body for mode 'sh'), files={}.  Works in a copy of /repo mounted over /repo in a
private namespace, so nothing outside the copy sees the change.  Writes /verif/seeded/<id>/ when it is confirmed."""
import sys, os, subprocess, json, shutil
spec = {}
exec(open(sys.argv[1]).read(), spec)
ID, PROP = spec['id'], spec['prop']
checks = None
for i, a in enumerate(sys.argv):
    if a == '--checks':
        checks = [] if sys.argv[i + 1] == 'none' else sys.argv[i + 1].split(',')
if checks is None:
    checks = [PROP]
W = f'/tmp/pl/{ID}'
shutil.rmtree(W, ignore_errors=True)
os.makedirs(W)
subprocess.run(['cp', '-a', '/repo', W + '/repo'], check=True)
for f, old, new in spec['edits']:
    p = f'{W}/repo/{f}'
    s = open(p, encoding='latin-1').read()
    if s.count(old) != 1:
        print(ID, 'EDIT NOT UNIQUE', f, s.count(old)); sys.exit(2)
    open(p, 'w', encoding='latin-1').write(s.replace(old, new))
D = f'{W}/demo'
os.makedirs(D)
diff = subprocess.run(['git', '-C', W + '/repo', 'diff'], capture_output=True).stdout
open(f'{D}/patch.diff', 'wb').write(diff)
head = '''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
cd /repo/_build/work/src || exit 2
. ./SETVARS
unset LINEDIT
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cd "$T" || exit 2
'''
mode = spec.get('mode', 'native')
if mode == 'native':
    body = '''cp "$D/t.pl" .
timeout 100 gplc --no-top-level -o t t.pl >c.log 2>&1 || { cat c.log; exit 1; }
timeout 100 ./t </dev/null 2>&1 | head -c 20000 >out
diff out "$D/expected" && echo same
'''
elif mode == 'top':
    body = '''cp "$D/t.pl" .
timeout 100 gprolog --consult-file t.pl --query-goal 'open(out,write,S), set_output(S), main, close(S), halt' </dev/null 2>&1 | head -c 20000 >log
touch out
diff out "$D/expected" && echo same
'''
else:
    body = spec['sh']
open(f'{D}/demo.sh', 'w').write(head + body)
os.chmod(f'{D}/demo.sh', 0o755)
if 'pl' in spec:
    open(f'{D}/t.pl', 'w', encoding='latin-1').write(spec['pl'] + ('\n:- initialization((main, nl)).\n' if mode == 'native' else ''))
for n, c in spec.get('files', {}).items():
    open(f'{D}/{n}', 'w').write(c)
if mode != 'sh':
    open(f'{D}/expected', 'w').close()


def ns(cmd, timeout=1500, env=None):
    return subprocess.run(['unshare', '-Urm', 'bash', '-c', f'mount --bind {W}/repo /repo && mkdir -p {W}/ev {W}/rp /verif/replays /verif/evidence && mount --bind {W}/ev /verif/evidence && mount --bind {W}/rp /verif/replays && cd /repo && {cmd}'], capture_output=True,
                          text=True, timeout=timeout, errors='replace', env=dict(os.environ, **(env or {})))


def demo(env=None):
    r = ns(f'bash {D}/demo.sh', 400)
    return r.returncode, (r.stdout + r.stderr)[-1500:]


# unchanged
ns('git checkout -q -- .')
r = ns('bash /opt/vp/build.sh')
rc, out = demo()
if mode != 'sh':
    # what the unchanged tree writes is the expectation; the author checks it
    exp = '\n'.join(l[2:] for l in out.split('\n') if l.startswith('< ')) 
    if exp:
        r = ns(f"sed -i 's/^diff out .*/cat out/' {D}/demo.sh; bash {D}/demo.sh > {D}/expected")
        open(f'{D}/demo.sh', 'w').write(head + body)
        print(ID, 'EXPECTED:\n' + open(f'{D}/expected', errors='replace').read()[:1500])
    rc, out = demo()
if rc != 0:
    print(ID, 'DEMO FAILS ON BASE', rc, out); sys.exit(2)
r = ns(f'git apply {D}/patch.diff && bash /opt/vp/build.sh')
if r.returncode:
    print(ID, 'BUILD FAILS', r.stdout[-3000:], r.stderr[-500:]); sys.exit(2)
rc, out = demo()
print(ID, 'demo with patch rc', rc, out[-600:])
if rc == 0:
    sys.exit(2)
for attempt in range(2):
    ns(f'bash /opt/vp/test.sh {W}/t.json')
    o = json.load(open(f'{W}/t.json')); b = json.load(open('/opt/vp/BASELINE.json'))
    miss = [t for t in b['stable'] if t not in o['passed']]
    if not miss:
        break
if miss:
    print(ID, 'TESTS FAIL', miss[:10]); sys.exit(2)
S = f'/verif/seeded/{ID}'
shutil.rmtree(S, ignore_errors=True)
shutil.copytree(D, S)
json.dump({'property': PROP, 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(f'{S}/meta.json', 'w'), indent=1)
print(ID, 'CONFIRMED')
for c in checks:
    f = f'/verif/checks/{c.lower()}.py'
    if os.path.exists(f):
        r = ns(f'cd /verif && timeout 900 python3 {f} quick', env={'VERIF_SEED': '1'})
        v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        print(ID, c, 'CAUGHT' if r.returncode == 1 and v else 'MISSED', 'rc', r.returncode, r.stdout[-300:] if not v else r.stdout[:400])
    else:
        print(ID, c, 'NO CHECK YET')
if '--keep' not in sys.argv:
    shutil.rmtree(W)
