"""Writes MANIFEST.json: one check for each property that has a module in mc/props"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(here, 'tools', 'levels.json')))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(here, 'mc', 'props', i.lower() + '.py')):
        t = NOTES.get(i, {})
        checks.append({'property': i, 'quick_cmd': './check ' + i + ' --tier quick',
                       'thorough_cmd': './check ' + i + ' --tier thorough',
                       'technique': t.get('technique', 'explicit-state model checking of the implementation in lock step with a reference model'),
                       'level': 'model_checking', 'level_note': t.get('note', 'exhaustive within the bounds reported in the evidence file')})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. See DESIGN.md.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks,', len(na), 'not claimed')
