#!/usr/bin/env python3
# writes MANIFEST.json from checks.py and properties.jsonl
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, root)
from checks import CHECKS
props = [json.loads(l)['id'] for l in open(os.path.join(root, 'properties.jsonl'))]
m = {'version': 1,
     'setup_cmd': 'python3 setup_check.py',
     'checks': [], 'not_applicable': [],
     'notes': 'Every check compiles its harness against the current tree of /repo into the git-ignored build/ and runs it; no hooks are needed: '
              'the library is header only and everything is observed through its public interface, element types, operator new/delete and ASan.'}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m['checks'].append({'property': p, 'quick_cmd': 'VERIF_TIER=quick python3 run_check.py ' + p,
                            'thorough_cmd': 'VERIF_TIER=thorough python3 run_check.py ' + p,
                            'evidence_file': 'evidence/%s.json' % p,
                            'technique': c['technique'], 'level': 'exploration', 'level_note': c['note']})
    else:
        m['not_applicable'].append({'property': p, 'reason': 'the check is still to be built'})
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not claimed')
