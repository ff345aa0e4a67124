"""Writes MANIFEST.json from the registry of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/analyzer')
from registry import MODULES, META, NOT_APPLICABLE, NOTES
checks = []
for pid in sorted(MODULES):
    m = META[pid]
    checks.append({'property': pid, 'quick_cmd': 'python3 check.py ' + pid, 'thorough_cmd': 'python3 check.py %s --thorough' % pid,
                   'technique': m['technique'], 'level': m['level'], 'level_note': m['note']})
d = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NOT_APPLICABLE.items())], 'notes': NOTES}
json.dump(d, open(V + '/MANIFEST.json', 'w'), indent=1)
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
have = set(MODULES) | set(NOT_APPLICABLE)
print('missing', [p for p in props if p not in have], 'extra', sorted(have - set(props)), 'both', sorted(set(MODULES) & set(NOT_APPLICABLE)))
