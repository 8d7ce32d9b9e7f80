import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
from levels import LEVELS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='sh bin/setup', checks=[], not_applicable=[])
for i in ids:
    if i in props.CHECKS:
        m['checks'].append(dict(property=i, quick_cmd='bin/check %s quick' % i, thorough_cmd='bin/check %s thorough' % i,
                                technique='TLA+ specification checked by TLC; conformance of recorded behaviours of the real code judged by TLC',
                                level=LEVELS[i]['level'], level_note=LEVELS[i]['note']))
    else:
        m['not_applicable'].append(dict(property=i, reason='check not built yet'))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), len(m['not_applicable']))
