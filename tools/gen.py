#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the registry."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry as r
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in sorted(list(r.PROPS.values()) + r.NA, key=lambda p: p['id']):
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': m[0], 'where': m[1]} for m in p['mechanism']],
                        **({'observe_at': p['observe']} if p.get('observe') else {}), 'hook_needed': None}}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 tools/vb.py',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 tools/check.py %s quick' % p['id'],
                 'thorough_cmd': 'python3 tools/check.py %s thorough' % p['id'],
                 'evidence_file': 'evidence/%s.json' % p['id'],
                 'technique': 'bounded symbolic execution of the real code (LLVM IR) with Z3; counterexamples replayed natively',
                 'level': 'model_checking',
                 'level_note': p['note'] or ('Within the bounds every path of the real code is explored and each assertion is decided by the solver for all values. Bounds: '
                               + p['bounds'] + ' Outside: ' + p['outside'])}
                for p in sorted(r.PROPS.values(), key=lambda p: p['id'])],
     'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in r.NA],
     'notes': 'One engine (engine/) interprets the LLVM IR compiled from /repo on every run; harnesses (harness/) state the properties. See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks')

D = os.path.join(V, 'DESIGN.md')
d = open(D).read().split('<!-- generated -->')[0] + '<!-- generated -->\n'
for p in sorted(r.PROPS.values(), key=lambda p: p['id']):
    q = ' '.join('%s(%s)' % (x['h'], '; '.join(' '.join(map(str, a)) for a in x['quick'])) for x in p['runs'])
    d += '\n### %s %s\n\n%s\n\n* Decided over: %s. Bounds: %s Outside: %s\n* Why tests cannot: %s\n* Quick runs: %s\n' % (
        p['id'], p['title'], p['statement'], p['qtext'], p['bounds'], p['outside'], p['why'], q)
for p in r.NA:
    d += '\n### %s %s (not applicable)\n\n%s\n\n%s\n' % (p['id'], p['title'], p['statement'], p['reason'])
kf = json.load(open(os.path.join(V, 'known_findings.json')))
d += '\n## Genuine defects found and fixed\n\n' + ''.join('* %s\n' % k['note'] for k in kf)
sd = os.path.join(V, 'seeded')
d += '\n## Planted bugs\n\n| id | property | needs | breaks |\n|---|---|---|---|\n'
for i in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, i, 'meta.json')))
    d += '| %s | %s | %s | %s |\n' % (i, m['property'], m['needs'], m['what_it_breaks'])
d += '\nEach was confirmed in a scratch copy: builds, passes the 850 tests, its demo fails with it and passes without it, and the quick check of its property reports it.\n'
open(D, 'w').write(d)
