#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the claimed checks (tools/claims.json)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/vp/venv/bin/python'
claims = json.load(open(os.path.join(V, 'tools', 'claims.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    c = claims.get(p['id'])
    if c and 'na' not in c:
        cmd = '%s sim/check.py %s' % (PY, p['id'])
        checks.append({'property': p['id'], 'quick_cmd': cmd, 'thorough_cmd': cmd + ' --thorough',
                       'evidence_file': 'evidence/%s.json' % p['id'],
                       'technique': c['technique'], 'level': 'exploration', 'level_note': c['note']})
    else:
        na.append({'property': p['id'], 'reason': c['na'] if c else 'check under construction; not claimed yet'})
m = {'version': 1, 'setup_cmd': PY + ' sim/build.py',
     'hooks': {'guard': 'GRAPHILLION_SIM',
               'enable': 'sim/build.py compiles /repo/src with -DGRAPHILLION_SIM and links sim/simrt.cc (never used by /opt/vp/build.sh or setup.py)',
               'source_commits': [os.popen("git -C /repo log --format=%H --grep=GRAPHILLION_SIM | tail -1").read().strip() or '7906a13']},
     'checks': checks, 'not_applicable': na,
     'notes': 'Every check is sim/check.py PROPERTY; see DESIGN.md. Replay: sim/check.py PROPERTY --replay FILE.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not claimed')
