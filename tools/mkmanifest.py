"""writes MANIFEST.json from the property list and the checks that exist"""
import json, os, importlib, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
TECH = {
 'V': 'value-numbering dataflow over compiler IR',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
NA = {}
nap = os.path.join(V, 'tools', 'not_applicable.json')
if os.path.exists(nap):
    NA = json.load(open(nap))
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i + '.py')) and i not in NA:
        m = importlib.import_module('checks.' + i)
        checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py ' + i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': getattr(m, 'TECHNIQUE', 'path-sensitive dataflow over compiler IR'),
                       'level': 'other', 'level_note': getattr(m, 'NOTE', m.RULE)})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no static decision procedure has been completed for it')})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'All checks are static analyses of the current sources of /repo (clang 18 translation to IR, normalisation, dataflow in sa/). Nothing of /repo is executed.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
