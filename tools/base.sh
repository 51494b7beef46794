#!/bin/bash
# build + baseline tests of a copy of /repo mounted over /repo: prints the stable tests that do not pass
W=$(mktemp -d /tmp/base.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo $W/repo
unshare -Urm bash -c "mount --bind $W/repo /repo && cd /repo && { bash /opt/vp/build.sh >$W/b.log 2>&1 || { tail -5 $W/b.log; exit 1; }; } && bash /opt/vp/test.sh $W/t.json >/dev/null 2>&1"
python3 - $W/t.json <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
miss=[t for t in b['stable'] if t not in o['passed']]
print('stable', len(b['stable']), 'not passing', miss)
P
