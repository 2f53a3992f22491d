"""Source of properties.jsonl and MANIFEST.json (run by hand: python3 lib/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note='', level='other', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, level=level, na=na, note=note))
exec(open(os.path.join(V, 'lib', 'props_data.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']},
                            'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
man = {'version': 1, 'setup_cmd': 'python3 lib/setup.py', 'checks': [], 'not_applicable': []}
for p in P:
    if p['na']:
        man['not_applicable'].append({'property': p['id'], 'reason': p['na']})
    else:
        man['checks'].append({'property': p['id'], 'level': p['level'], 'technique': p['technique'], 'level_note': p['note'],
                              'quick_cmd': 'python3 checks/%s.py' % p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 checks/%s.py' % p['id']})
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
