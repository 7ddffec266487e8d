#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json: run it after editing."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []  # (id, title, statement, over, text, why, files, mechanism, observe, technique, note)


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note, state=state))


exec(open(os.path.join(V, 'tools', 'props.py')).read())

NA = []
exec(open(os.path.join(V, 'tools', 'na.py')).read())

with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'observe_at': p['observe']}}
        if p['state']:
            d['anchors']['state'] = [{'name': n, 'meaning': m} for n, m in p['state']]
        f.write(json.dumps(d) + '\n')

claimed = [p for p in P if os.path.exists(f"{V}/harness/{p['id']}.cpp")]
na = {n: r for n, r in NA}
for p in P:
    if p not in claimed and p['id'] not in na:
        na[p['id']] = 'check not built yet'
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
     'checks': [{'property': p['id'], 'quick_cmd': f"python3 run.py {p['id']} --tier quick", 'thorough_cmd': f"python3 run.py {p['id']} --tier thorough",
                 'evidence_file': f"evidence/{p['id']}.json", 'technique': p['technique'], 'level': 'model_checking', 'level_note': p['note']} for p in claimed],
     'not_applicable': [{'property': k, 'reason': v} for k, v in na.items()]}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(P), 'properties,', len(claimed), 'claimed')
