#!/usr/bin/env python3
# MANIFEST.json from properties.jsonl, checks/*.py (claimed) and tools/notes.json (level notes, reasons)
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(here + '/tools/notes.json'))
checks, na = [], []
for l in open(here + '/properties.jsonl'):
    i = json.loads(l)['id']
    if os.path.exists('%s/checks/%s.py' % (here, i)) and i not in notes.get('disabled', []):
        checks.append(dict(property=i, quick_cmd='./check ' + i, thorough_cmd='./check %s --tier thorough' % i, evidence_file='evidence/%s.json' % i,
            technique=notes['technique'].get(i, notes['technique']['*']), level='model_checking', level_note=notes['level'].get(i, notes['level']['*'])))
    else:
        na.append(dict(property=i, reason=notes['na'].get(i, 'No check has been built for it yet.')))
m = dict(version=1, setup_cmd='./setup.sh', hooks=dict(guard='MLPP_VERIFY_HOOKS', enable='the harness compiles /repo with -DMLPP_VERIFY_HOOKS (lib/vf.py build)', source_commits=notes['hook_commits']),
         checks=checks, not_applicable=na, notes=notes['notes'])
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
