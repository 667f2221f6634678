#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list (development aid; the checks do not use it)."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'code/cpp/src/'
P = []
def prop(id, title, statement, over, text, why, files, fns, note, level='proof', na=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why=why, files=files, fns=fns, note=note, level=level, na=na, technique=technique))
exec(open(R + '/tools/props.py').read())
with open(R + '/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': p['quantifier'], 'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': f.split('@')[0], 'where': f.split('@')[1] if '@' in f else p['files'][0]} for f in p['fns']]}}, ensure_ascii=False) + '\n')
TECH = 'contract-based deductive verification: pre/postconditions on the real C++ functions, executed over symbolic reals on every path, obligations discharged by exact polynomial normal form, sign reasoning and z3'
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
for p in P:
    if p['na']: m['not_applicable'].append({'property': p['id'], 'reason': p['na']}); continue
    m['checks'].append({'property': p['id'], 'quick_cmd': f'python3 run.py {p["id"]}', 'thorough_cmd': f'VERIF_TIER=thorough python3 run.py {p["id"]}', 'technique': p['technique'] or TECH, 'level': p['level'], 'level_note': p['note']})
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False); open(R + '/MANIFEST.json', 'a').write('\n')
