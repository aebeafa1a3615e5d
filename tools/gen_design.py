#!/usr/bin/env python3
"""writes DESIGN.md from tools/design/* and the evidence of the last run"""
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
D = os.path.join(here, 'tools', 'design')


def rd(n):
    p = os.path.join(D, n)
    return open(p).read() if os.path.exists(p) else ''


import contracts  # noqa
cs = contracts.load()
ps = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
out = []
for p in ps:
    i = p['id']
    e = json.load(open(os.path.join(here, 'evidence', i + '.json')))
    c = e['coverage']
    modes = {k['contract']: k for k in c['contracts']}
    out.append('### %s %s' % (i, p['title']))
    out.append('Decided by the contracts below on %s; cost %.0f s quick.' % (
        ', '.join('`%s`' % m['where'].replace('dcf/', '')
                  for m in p['anchors']['mechanism']), e['wall_s']))
    for k in cs:
        if k.prop != i:
            continue
        m = modes.get(k.name, {})
        doc = ' '.join((k.fn.__doc__ or '').split())
        mode = m.get('mode', 'search on the real code only')
        out.append('* `%s` - %s; %s obligations%s' % (
            k.name, mode, m.get('obligations', 0),
            (': ' + doc) if doc else ''))
    out.append('')
kf = [l.strip() for l in open(os.path.join(here, 'known-findings.txt'))
      if l.startswith('fixed:')]
find = rd('findings.md').replace('@@FIXED@@', '\n'.join(
    '* ' + l[len('fixed: '):] for l in kf))
t = rd('DESIGN.in.md')
t = t.replace('@@PROPS@@', '\n' + '\n'.join(out))
t = t.replace('@@FINDINGS@@', '\n' + find)
t = t.replace('@@BUGS@@', '\n' + rd('bugs.md'))
t = t.replace('@@UNBOUNDED@@', '\n' + rd('unbounded.md'))
open(os.path.join(here, 'DESIGN.md'), 'w').write(t)
