#!/usr/bin/env python3
"""addfix.py PROPERTY COMMIT TEXT: records a repaired defect in known_findings.jsonl"""
import sys, json, subprocess, os
p, c, t = sys.argv[1:4]
f = os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'known_findings.jsonl')
sha = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', '--short', c], text=True).strip()
with open(f, 'a') as o:
    o.write(json.dumps({'property': p, 'key': 'fixed-' + sha, 'status': 'fixed', 'commit': sha, 'what': f'fixed: property={p} {sha} {t}'}) + '\n')
