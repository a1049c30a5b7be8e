"""Regenerate MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(os.path.join(V, 'sa', 'claims.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    c = T.get(p['id'])
    if not c:
        raise SystemExit('no claim entry for ' + p['id'])
    if 'reason' in c:
        na.append({'property': p['id'], 'reason': c['reason']})
        continue
    checks.append({'property': p['id'], 'quick_cmd': 'python3-vt check.py ' + p['id'], 'thorough_cmd': 'python3-vt check.py ' + p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'], 'technique': c['technique'], 'level': c['level'],
                   'level_note': c['note']})
json.dump({'version': 1, 'setup_cmd': 'python3-vt check.py --selftest', 'checks': checks, 'not_applicable': na,
           'notes': 'Every check compiles the library sources of the current /repo tree to LLVM IR and analyses that IR; nothing from /repo is executed.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
