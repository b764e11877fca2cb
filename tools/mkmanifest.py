"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import importlib
checks, na = [], []
NA = {}
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    if os.path.exists(os.path.join(V, 'checks', pid.lower() + '.py')):
        m = importlib.import_module('checks.' + pid.lower())
        checks.append(dict(property=pid, quick_cmd='VERIF_TIER=quick python3 run.py ' + pid, thorough_cmd='VERIF_TIER=thorough python3 run.py ' + pid,
                           evidence_file='evidence/%s.json' % pid, technique=m.TECHNIQUE, level=getattr(m, 'LEVEL', 'exploration'), level_note=m.NOTE))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='python3 setup_check.py', checks=checks, not_applicable=na,
               notes='Every check rebuilds /repo\'s working tree itself (cache in .build, content-addressed). No hooks in /repo are needed: the harnesses use the public API, sockets and link-time wrapping of socket calls.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
