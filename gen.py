#!/usr/bin/python3
"""writes properties.jsonl and MANIFEST.json from rules/catalog.py"""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import rules.catalog as c          # noqa: E402
import rules.props as rp           # noqa: E402

TECH = 'static analysis: gated value graphs (global value numbering to canonical forms with effect traces) compared ' \
       'with reference semantics, no execution'

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for pid, p in list(c.P.items()) + list(c.NOT_APPLICABLE.items()):
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, (pid, p['statement'].count('. '))
        f.write(json.dumps({
            'id': pid, 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
checks = []
for pid, p in c.P.items():
    for k in p['obs']:
        assert k in rp.O, (pid, k)
    kinds = sorted({rp.O[k].kind for k in p['obs']})
    tech = p.get('tech') or TECH
    checks.append({
        'property': pid, 'quick_cmd': 'python3 check.py %s quick' % pid,
        'thorough_cmd': 'python3 check.py %s thorough' % pid, 'technique': tech, 'level': 'other',
        'level_note': p.get('note') or (
            'Every obligation is decided for all inputs and histories from the current source (%s). Trusts the reference '
            'functions in specs/, real arithmetic in place of floating point, and documented behaviour of libraries; '
            'code the analysis cannot bring to a canonical form is reported as undecided, not as a violation.'
            % ', '.join(kinds))})
na = [{'property': pid, 'reason': p['reason']} for pid, p in c.NOT_APPLICABLE.items()]
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3 check.py --selftest', 'checks': checks, 'not_applicable': na,
               'notes': 'Nothing is built and nothing of /repo is executed; no hooks.'}, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
used = {k for p in c.P.values() for k in p['obs']}
print('unused obligations:', sorted(set(rp.O) - used))

# DESIGN.md: the hand-written head, then what the tables say ---------------------------------------------------------
seeds = {}
sd = os.path.join(HERE, 'seeded')
for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else ():
    m = json.load(open(os.path.join(sd, s, 'meta.json')))
    seeds.setdefault(m['property'], []).append((s, m['what_it_breaks'], m['needs']))
out = [open(os.path.join(HERE, 'design_head.md')).read().rstrip(), '', '## 8. Per property', '']
for pid, p in c.P.items():
    out += ['### %s – %s' % (pid, p['title']), '', p['statement'], '',
            '*Quantified over:* %s.' % p['text'].rstrip('.'), '*Why tests cannot settle it:* ' + p['why']]
    if p.get('note'):
        out.append('*Note:* ' + p['note'])
    out += ['*Decided by:*', '']
    groups = {}
    for k in p['obs']:
        o = rp.O[k]
        to = getattr(o, 'spec', None)
        groups.setdefault((o.kind, to), []).append((k, o.name))
    for (kind, to), os_ in groups.items():
        names = ', '.join('`%s` %s' % (k, n) for k, n in os_)
        out.append('- %s: %s%s' % (kind, names, ' – against `%s`' % to if to else ''))
    for s, what, needs in seeds.get(pid, ()):
        out.append('- planted and caught (`%s`): %s (needs %s)' % (s, what, needs))
    out.append('')
out += ['## 9. Not applicable', '']
out += ['- **%s** %s: %s' % (pid, p['title'], p['reason']) for pid, p in c.NOT_APPLICABLE.items()]
if seeds:                     # seeded/ is not shown to the checks; DESIGN.md is written where it is
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out) + '\n')
