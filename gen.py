#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py (run by hand after editing props.py)."""
import json
import os
import props

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS + props.NOT_APPLICABLE:
        assert len(p['title']) <= 80, p['id']
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['all']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}
        f.write(json.dumps(d) + '\n')
man = {'version': 1, 'setup_cmd': 'python3 --version',
       'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'],
                   'thorough_cmd': 'python3 check.py %s' % p['id'],
                   'technique': p['technique'], 'level': 'other',
                   'level_note': p['note']} for p in props.PROPS],
       'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in props.NOT_APPLICABLE],
       'notes': 'All checks are static: they parse the Python (and, where named, Cython) sources under /repo on every run '
                'and never import or execute them. See DESIGN.md.'}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')

# DESIGN.md: the parts kept in step with props.py and seeded/
dp = os.path.join(here, 'DESIGN.md.in')
if os.path.exists(dp):
    tab = []
    for p in props.PROPS:
        tab.append('### %s %s\n\n%s\n\n*Decided by:* %s. *Analysed:* %s. *Why not by tests:* %s.\n\n*Bounds and trust:* %s\n'
                   % (p['id'], p['title'], p['statement'], p['technique'], p['all'], p['why'], p['note'].strip()))
        if p.get('design'):
            tab.append(p['design'].strip() + '\n')
    na = ['* %s %s: %s.' % (p['id'], p['title'], p['reason']) for p in props.NOT_APPLICABLE]
    seeds = ['| bug | property | caught by | what it breaks |', '|---|---|---|---|']
    sd = os.path.join(here, 'seeded')
    for b in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, b, 'meta.json')))
        seeds.append('| %s | %s | %s | %s |' % (b, m['property'], props.CAUGHT.get(b, m['property']), m['what_it_breaks']))
    t = open(dp).read()
    t = t.replace('@@TABLE@@', '\n'.join(tab)).replace('@@NA@@', '\n'.join(na)).replace('@@SEEDS@@', '\n'.join(seeds))
    open(os.path.join(here, 'DESIGN.md'), 'w').write(t)
