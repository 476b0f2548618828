#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. A property is claimed when props/<id>.cpp exists."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), obs=(), level_note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, state=state, obs=obs, note=level_note, na=na))
exec(open(os.path.join(here, 'tools', 'properties.py')).read())
lines, checks, na = [], [], []
for p in P:
    claimed = os.path.exists(os.path.join(here, 'props', p['id'] + '.cpp'))
    if not claimed and not p['na']: continue
    assert len(p['title']) <= 80, p['id']
    lines.append(json.dumps({
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
        'anchors': {'files': p['files'], 'mechanism': [dict(name=a, where=b) for a, b in p['mech']],
                    'state': [dict(name=a, meaning=b, where=c) for a, b, c in p['state']],
                    'observe_at': list(p['obs']), 'hook_needed': None}}))
    if claimed:
        checks.append({
            'property': p['id'], 'quick_cmd': 'bin/check %s --tier quick' % p['id'], 'thorough_cmd': 'bin/check %s --tier thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': 'deterministic simulation with fault injection: seeded schedules, clocks and faults over the real code',
            'level': 'exploration', 'level_note': (p['note'] or '') + ('' if not p['note'] else ' ') +
            'Sampled, not exhaustive: a clean batch says that none of the explored schedules and fault sequences breaks the property. Trusts the simulated stand-ins named under stub_components in the evidence and sequentially consistent memory.'})
    else:
        na.append({'property': p['id'], 'reason': p['na']})
open(os.path.join(here, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
json.dump({'version': 1, 'setup_cmd': 'bin/sync && make -s -j8 core all', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo are needed: every seam is a link-time wrap of a system or library call or a simulated sqlite VFS. See DESIGN.md.'},
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not applicable')
