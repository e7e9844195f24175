#!/usr/bin/env python3
"""registry.py -> properties.jsonl, MANIFEST.json"""
import json, os
import registry
here = os.path.dirname(os.path.abspath(__file__))
NA = getattr(registry, 'NA', [])
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for pid, p in list(registry.PROPS.items()):
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': pid, 'title': p['title'], 'statement': p['stmt'], 'quantifier': {'over': p['over'], 'text': p['text']},
                            'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                                        'observe_at': p.get('obs', []), 'hook_needed': None}}) + '\n')
    for n in NA:
        f.write(json.dumps({'id': n['id'], 'title': n['title'], 'statement': n['stmt'], 'quantifier': {'over': n['over'], 'text': n['text']},
                            'why_tests_cant': n['why'], 'anchors': {'files': n['files'], 'mechanism': [{'name': a, 'where': b} for a, b in n['mech']], 'hook_needed': None}}) + '\n')
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': [], 'not_applicable': [{'property': n['id'], 'reason': n['reason']} for n in NA],
     'hooks': {'guard': 'none', 'enable': 'no hooks: the harnesses include the real sources and need no change in the repository', 'source_commits': []},
     'notes': 'All checks: symbolic execution of the LLVM IR of the real sources, z3 decides every obligation; counterexamples are replayed natively under ASan/UBSan.'}
for pid, p in registry.PROPS.items():
    m['checks'].append({'property': pid, 'quick_cmd': 'bin/check %s quick' % pid, 'thorough_cmd': 'bin/check %s thorough' % pid,
                        'evidence_file': 'evidence/%s.json' % pid,
                        'technique': 'bounded symbolic execution of LLVM IR of the real code + SMT (z3), native replay of counterexamples',
                        'level': p.get('level', 'model_checking'),
                        'level_note': 'Every path of the real code within the bounds (%s) is executed symbolically and every obligation is decided by z3 for all values; doubles are modelled as reals; trusts clang 18, the executor in engine/ (validated against native runs each time) and z3.' % p['bounds']})
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)

with open(os.path.join(here, 'DESIGN.md'), 'w') as f:
    f.write(open(os.path.join(here, 'design_head.md')).read())
    f.write('## Properties\n\n')
    for pid, p in registry.PROPS.items():
        f.write('### %s — %s\n\n%s\n\n' % (pid, p['title'], p['stmt']))
        f.write('- *Decided by*: symbolic execution of %s; harness %s.\n' % (', '.join('`%s`' % x for x in p['files']),
                '; '.join('`%s` (%s)' % (u['src'], ' '.join(u['entries'] or ['all'])) for u in p['units'])))
        f.write('- *Quantified over*: %s.\n- *Bounds*: %s.\n' % (p['text'], p['bounds']))
        f.write('- *Oracle / observed*: %s.\n- *Why tests cannot*: %s\n' % (', '.join(p.get('obs', [])), p['why']))
        if p.get('assume'):
            f.write('- *Assumptions*: %s.\n' % '; '.join(p['assume']))
        if p.get('known'):
            f.write('- *Known findings*: %s\n' % '; '.join(p['known'].values()))
        f.write('\n')
    if NA:
        f.write('## Not applicable\n\n')
        for n in NA:
            f.write('- **%s** (%s): %s\n' % (n['id'], n['title'], n['reason']))
    t = os.path.join(here, 'design_tail.md')
    if os.path.exists(t):
        f.write('\n' + open(t).read())
