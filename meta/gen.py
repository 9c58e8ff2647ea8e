import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); R = os.path.dirname(H); sys.path.insert(0, H)
from props import PROPS, DF, TRUST
with open(R + '/properties.jsonl', 'w') as f:
    for p in sorted(PROPS, key=lambda p: p['id']):
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['state']: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        if p['observe']: a['observe_at'] = p['observe']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                            'why_tests_cant': p['why'], 'anchors': a}) + '\n')
m = {'version': 1, 'setup_cmd': 'bash bin/extract.sh',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'], 'thorough_cmd': 'python3 check.py %s --thorough' % p['id'],
                 'technique': p['technique'] or DF, 'level': 'other', 'level_note': p['note'] + ' ' + TRUST +
                 'An obligation the analysis cannot decide is counted in the evidence and raises no alarm.'} for p in sorted(PROPS, key=lambda p: p['id']) if not p['na']],
     'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in PROPS if p['na']],
     'notes': 'No hooks: the checks read the unmodified source through a rustc driver.'}
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
json_ok = True
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    S = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(R + '/properties.jsonl'): jsonschema.validate(json.loads(l), S)
    print('valid', len(m['checks']), 'checks,', len(m['not_applicable']), 'n/a')
except ImportError: print('jsonschema not available')

# DESIGN.md: the generated tables
import importlib, re
d = open(H + '/DESIGN.head.md').read()
sys.path.insert(0, R)
rows = []
for p in sorted(PROPS, key=lambda p: p['id']):
    if p['na']: rows.append('* **%s %s**: not applicable: %s' % (p['id'], p['title'], p['na'])); continue
    src = open(R + '/sa/checks/%s.py' % p['id'].lower()).read()
    m = importlib.import_module('sa.checks.' + p['id'].lower())
    rows.append('* **%s %s.** %s *Bounds:* %s *Beyond the tests:* %s *Assumes:* %s.' % (p['id'], p['title'], m.RULE, p['note'], p['why'], '; '.join(m.ASSUMES) or 'nothing more'))
d = d.replace('@PROPS@', '\n'.join(rows))
seeds = []
catch = json.load(open(H + '/caught.json')) if os.path.exists(H + '/caught.json') else {}
for b in sorted(os.listdir(R + '/seeded')):
    try: x = json.load(open(R + '/seeded/%s/meta.json' % b))
    except OSError: continue
    seeds.append('| %s | %s | %s | %s | %s |' % (b, x['property'], x['what_it_breaks'], x['needs'], catch.get(b, '?')))
d = d.replace('@SEEDS@', '| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n' + '\n'.join(seeds))
open(R + '/DESIGN.md', 'w').write(d)
