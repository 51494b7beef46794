#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the checks present and tools/levels.json"""
import json, os
V = os.path.realpath(os.path.join(os.path.dirname(__file__), '..'))
props = [json.loads(l) for l in open(f'{V}/properties.jsonl') if l.strip()]
notes = json.load(open(f'{V}/tools/levels.json'))
checks, na = [], []
for p in props:
    i = p['id']
    f = f'checks/{i.lower()}.py'
    if os.path.exists(f'{V}/{f}') and not notes.get(i, {}).get('na'):
        n = notes.get(i, {})
        checks.append({'property': i, 'quick_cmd': f'python3 {f} quick', 'thorough_cmd': f'python3 {f} thorough',
                       'evidence_file': f'evidence/{i}.json',
                       'technique': n.get('technique', 'runtime monitoring: logged events of random workloads checked offline against a reference model'),
                       'level': n.get('level', 'exploration'),
                       'level_note': n.get('note', 'Held on the executions explored (seeded random workloads); trusts the event logger (foreign C code reading terms) and the Python reference model.')})
    else:
        na.append({'property': i, 'reason': notes.get(i, {}).get('na', 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'python3 lib/gpv/build.py plain',
     'hooks': {'guard': 'none', 'enable': 'No hooks in /repo are needed: the observation layer is foreign C code linked through the public interface (harness/).', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'See DESIGN.md.'}
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
