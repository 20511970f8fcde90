"""Writes MANIFEST.json from checks/*.py and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.notes import NOTES, NA
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(f'{V}/checks/{pid.lower()}.py'):
        n = NOTES[pid]
        checks.append(dict(property=pid, quick_cmd=f'bash check.sh {pid} quick', thorough_cmd=f'bash check.sh {pid} thorough',
                           technique=n['technique'], level=n['level'], level_note=n['note']))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, 'check under construction')))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         notes='One engine (sv/pyvc.py) runs contract harnesses over the real functions of /repo; see DESIGN.md. '
               'No hooks are added to /repo; its commits are fix: commits only, listed in KNOWN_FINDINGS.')
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
