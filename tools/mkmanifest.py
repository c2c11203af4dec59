#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import props, extras
T = {k: 'TLA+ specification checked with TLC; its state graph replayed step by step into the real crate' for k in props.JOBS}
T.update(getattr(props, 'TECH', {}))
N = getattr(props, 'NOTE', {})
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in props.JOBS or i in extras.EXTRA:
        checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=T[i], level='model_checking',
                           level_note=N.get(i, 'Every transition of the bounded state graphs is checked against the invariants and action properties of '
                           'spec/Props.tla, and every transition is stepped through the real code on the listed configurations; beyond the bounds '
                           'the property is only supported by the generality of the model.')))
    else:
        na.append(dict(property=i, reason=props.NA.get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
