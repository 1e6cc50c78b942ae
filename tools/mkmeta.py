#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'symbolic execution of the optimised LLVM IR of the real crates (own engine, byte/range/linear reasoning + Z3), counterexamples replayed natively'
P = []


def p(id, title, statement, over, quant, why, files, mech, observe=None, note='', ):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, observe=observe, note=note))


exec(open(V + '/tools/props.py').read())
NA = json.load(open(V + '/tools/not_applicable.json'))
with open(V + '/properties.jsonl', 'w') as fh:
    for x in P + [dict(n, na=True) for n in NA]:
        a = dict(files=x['files'], mechanism=[dict(name=n, where=w) for n, w in x['mech']])
        if x.get('observe'):
            a['observe_at'] = x['observe']
        fh.write(json.dumps(dict(id=x['id'], title=x['title'], statement=x['statement'], quantifier=dict(over=x['over'], text=x['quant']),
                                 why_tests_cant=x['why'], anchors=a)) + '\n')
m = dict(version=1, setup_cmd='python3 run.py setup', checks=[
    dict(property=x['id'], quick_cmd='python3 run.py %s quick' % x['id'], thorough_cmd='python3 run.py %s thorough' % x['id'],
         technique=TECH, level='model_checking', level_note=x['note'] or 'bounded: every value within the bounds listed per harness in the evidence file')
    for x in P], not_applicable=[dict(property=n['id'], reason=n['reason']) for n in NA])
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(P), 'properties,', len(NA), 'not applicable')
