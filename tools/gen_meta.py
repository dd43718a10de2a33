#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table in tools/props.py; checks exist for the ids that have checks/check_<id>.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT + '/tools']
sys.dont_write_bytecode = True
from props import PROPS, NA, HOOKS, NOTES
import jsonschema
out = []; checks = []; na = []
ps = json.load(open('/root/.vp/PROPERTIES.schema.json')) if os.path.exists('/root/.vp/PROPERTIES.schema.json') else None
for p in PROPS:
    d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
             anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], observe_at=[p['obs']], hook_needed=None))
    if ps: jsonschema.validate(d, ps)
    assert len(p['statement'].split('. ')) <= 4, p['id']
    out.append(d)
    if p['id'] in NA: na.append(dict(property=p['id'], reason=NA[p['id']])); continue
    if not os.path.exists('%s/checks/check_%s.py' % (ROOT, p['id'].lower())):
        na.append(dict(property=p['id'], reason='no check yet')); print('no check', p['id']); continue
    cmd = 'python3-vt bin/check.py %s --tier ' % p['id']
    checks.append(dict(property=p['id'], quick_cmd=cmd + 'quick', thorough_cmd=cmd + 'thorough', technique=p['tech'], level=p['level'], level_note=p['note']))
open(ROOT + '/properties.jsonl', 'w').write(''.join(json.dumps(d) + '\n' for d in out))
m = dict(version=1, setup_cmd='sh bin/setup.sh', checks=checks, not_applicable=na, notes=NOTES)
if HOOKS: m['hooks'] = HOOKS
ms = '/root/.vp/MANIFEST.schema.json'
if os.path.exists(ms): jsonschema.validate(m, json.load(open(ms)))
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1); open(ROOT + '/MANIFEST.json', 'a').write('\n')
print(len(out), 'properties', len(checks), 'checks')
