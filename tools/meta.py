#!/usr/bin/env python3
"""Property statements; writes properties.jsonl and MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/tools')
import props
PL = []
NA = []
def P(id, title, statement, over, text, why, files, mech, observe=(), note=''):
    PL.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=['src/' + f for f in files], mechanism=[dict(name=n, where='src/' + w) for n, w in mech], observe_at=list(observe), hook_needed=None), _note=note))
exec(open(V + '/tools/statements.py').read())
if __name__ == '__main__':
    with open(V + '/properties.jsonl', 'w') as f:
        for p in PL: f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    na = {x['property'] for x in NA}; checks = []
    for p in PL:
        i = p['id']
        if i in props.PROPS and i not in na:
            b = '; '.join('%s: %s' % (h['name'], h.get('bounds', '')) for h in props.PROPS[i]['harnesses'])
            checks.append(dict(property=i, quick_cmd='python3 tools/check.py %s --tier quick' % i, thorough_cmd='python3 tools/check.py %s --tier thorough' % i,
                technique='solver-based checking: symbolic execution of the LLVM IR of the /repo sources (gpse + Z3), counterexamples replayed natively', level='model_checking',
                level_note=('Bounds: ' + b + ('. ' + p['_note'] if p['_note'] else ''))[:1900]))
        elif i not in na: NA.append(dict(property=i, reason='check not built yet'))
    m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=NA,
             hooks=dict(guard='GP_VERIF', enable='checks compile /repo sources with -DGP_VERIF; no /repo source currently uses it', source_commits=[]))
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
    print(len(PL), 'properties', len(checks), 'checks', len(NA), 'not applicable')
