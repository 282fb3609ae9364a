#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from tools/props/*.json-like entries below."""
import json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
props = []
def P(id, title, statement, over, text, why, files, mech, level='model_checking', tech=None, note=None, state=None, observe=None, na=None):
    props.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      level=level, tech=tech, note=note, state=state, observe=observe, na=na))
for f in sorted(os.listdir(os.path.join(HERE, 'props'))):
    if f.endswith('.py'):
        exec(open(os.path.join(HERE, 'props', f)).read())
props.sort(key=lambda p: p['id'])
DEFTECH = 'explicit-state model checking of the implementation: exhaustive enumeration of bounded operation sequences/inputs, each execution compared with an independent model'
DEFNOTE = 'Exhaustive within the stated bounds on the real code bundled from /repo; nothing is claimed outside the bounds. Trusts Node, esbuild, @visactor/vutils/vscale/vrender where they are not the subject, and the independent model in the check.'
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as out:
    for p in props:
        assert len(p['title']) <= 80, p['id'] + ' title too long %d' % len(p['title'])
        assert re.match(r'^[A-Z][0-9]{2,3}$', p['id'])
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])
        if p['state']: a['state'] = p['state']
        if p['observe']: a['observe_at'] = p['observe']
        for fn in p['files']:
            assert os.path.exists(os.path.join('/repo', fn)), fn
        out.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
              quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'], anchors=a)) + '\n')
checks, na = [], []
for p in props:
    if p['na']:
        na.append(dict(property=p['id'], reason=p['na'])); continue
    if not os.path.exists(os.path.join(ROOT, 'checks', p['id'] + '.ts')):
        na.append(dict(property=p['id'], reason='check not built yet')); continue
    checks.append(dict(property=p['id'], quick_cmd='./run.sh ' + p['id'],
        thorough_cmd='VERIF_TIER=thorough ./run.sh ' + p['id'],
        technique=p['tech'] or DEFTECH, level=p['level'], level_note=p['note'] or DEFNOTE))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
   notes='No hooks are compiled into /repo: all control (virtual clock, rAF, Math.random, canvas) is injected from outside by lib/vtime.ts and lib/vg.ts.'),
   open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(props), 'properties,', len(checks), 'checks,', len(na), 'not applicable')
sys.path.insert(0, os.path.join(HERE, 'design'))
import importlib.util
spec = importlib.util.spec_from_file_location('design_gen', os.path.join(HERE, 'design', 'gen.py'))
mod = importlib.util.module_from_spec(spec); sys.dont_write_bytecode = True; spec.loader.exec_module(mod)
mod.write(ROOT, props)
