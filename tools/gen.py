#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from texts.py and from the checks
that exist."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import texts

NOTE = ('Exhaustive over the stated bounds, nothing sampled: every case runs '
        'the real code of /repo along an independent reference model and is '
        'compared after each transition. Nothing is claimed beyond the bounds '
        '(finite alphabets of values, sizes and depths); trusts numpy, the '
        'reference model of /verif/mc and the comparison tolerances.')

na = dict(getattr(texts, 'NA', {}))
checks = []
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in sorted(texts.P, key=lambda p: p['id']):
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        for file in p['files']:
            assert os.path.exists('/repo/' + file), file
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'],
            'statement': p['statement'].strip(),
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {
                'files': p['files'],
                'state': p['state'],
                'mechanism': [{'name': a, 'where': b}
                              for a, b in p['mechanism']],
                'observe_at': p['observe'],
                'hook_needed': None,
            }}) + '\n')
        if os.path.exists(os.path.join(HERE, 'mc/props',
                                       p['id'].lower() + '.py')):
            cmd = '/opt/venv/bin/python -W ignore check.py %s %s'
            checks.append({
                'property': p['id'],
                'quick_cmd': cmd % (p['id'], 'quick'),
                'thorough_cmd': cmd % (p['id'], 'thorough'),
                'technique': p['technique'],
                'level': 'model_checking',
                'level_note': (p['note'] + ' ' if p['note'] else '') + NOTE,
                'evidence_file': 'evidence/%s.json' % p['id'],
            })
        elif p['id'] not in na:
            na[p['id']] = 'no check built yet'
m = {
    'version': 1,
    'setup_cmd': '/opt/venv/bin/python -c "import numpy, h5py"',
    'checks': checks,
    'not_applicable': [{'property': k, 'reason': v}
                       for k, v in sorted(na.items())],
    'notes': 'Pure Python: the checks import the code from /repo directly, '
             'nothing is built. The checks use 8 processes.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')


# ------------------------------------------------------------- DESIGN.md
import importlib
sys.path.insert(0, HERE)
try:
    with open(os.path.join(HERE, 'tools/catches.json')) as f:
        catches = json.load(f)
except IOError:
    catches = {}
out = [open(os.path.join(HERE, 'tools/design_head.md')).read().rstrip(), '',
       '## The properties', '']
for p in sorted(texts.P, key=lambda p: p['id']):
    out += ['### %s. %s' % (p['id'], p['title']), '']
    file = os.path.join(HERE, 'mc/props', p['id'].lower() + '.py')
    if not os.path.exists(file):
        out += ['Not applicable: ' + na[p['id']], '']
        continue
    src = open(file).read()
    env = {}
    i = src.index('META = dict(')
    exec(src[i:src.index('\n)\n', i) + 3], env)
    meta = env['META']
    cost = ''
    try:
        with open(os.path.join(HERE, 'tools/costs.json')) as f:
            cost = json.load(f).get(p['id'], '')
    except IOError:
        pass
    out += ['* Technique: %s.' % p['technique'],
            '* Explored and compared: %s.' % meta['rule'],
            '* Bounds: %s.' % meta['bounds']]
    for a in meta.get('assumptions', []):
        out.append('* Assumption: %s.' % a)
    if p['note']:
        out.append('* Note: ' + p['note'])
    out.append('* Why the tests cannot: ' + p['why'])
    if cost:
        out.append('* Cost: ' + cost)
    mine = sorted(k for k, v in catches.items() if v['property'] == p['id'])
    if mine:
        out.append('* Planted bugs: ' + '; '.join(
            '%s (%s)' % (k, 'caught' if p['id'] in catches[k]['by'] else
                         'missed') for k in mine) + '.')
    out.append('')
if na:
    out += ['## Not applicable', '']
    out += ['* %s: %s' % kv for kv in sorted(na.items())]
extra = {k: [x for x in v['by'] if x != v['property']]
         for k, v in catches.items()}
extra = {k: v for k, v in extra.items() if v}
n = len(catches)
ok = sum(1 for v in catches.values() if v['property'] in v['by'])
out += ['## Planted bugs', '',
        '%d kept in seeded/, %d caught by the quick check of their property '
        '(`python3 tools/plant.py --catch`).' % (n, ok), '']
if extra:
    out += ['Also caught by the checks of other properties:', '']
    out += ['* %s: %s' % (k, ' '.join(v)) for k, v in sorted(extra.items())]
with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(out).rstrip() + '\n')
