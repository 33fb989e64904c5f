#!/usr/bin/env python3
"""Rewrites the appendices of DESIGN.md (findings, planted bugs) from known_findings.json and seeded/."""
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(R + '/DESIGN.md').read().split('\n## Appendix A')[0].rstrip('\n')
notes = json.load(open(R + '/tools/seed_notes.json')) if os.path.exists(R + '/tools/seed_notes.json') else {}
o = [d, '', '## Appendix A: planted bugs', '',
     'Each compiles, passes the 64 stable tests and fails its own demonstration. "caught by" is the outcome of the quick check.',
     'Those in seeded-more/ were confirmed the same way and are set aside to keep a vcheck short; they can be moved back to seeded/.', '',
     '| id | property | what breaks | needs | caught by |', '|---|---|---|---|---|']
for f in sorted(glob.glob(R + '/seeded*/*/meta.json')):
    i = f.split('/')[-2]; m = json.load(open(f))
    e = lambda s: str(s).replace('|', '\\|').replace('\n', ' ')
    o.append('| %s | %s | %s | %s | %s |' % (i, m['property'], e(m['what_it_breaks']), e(m['needs']), e(notes.get(i, m['property']))))
k = json.load(open(R + '/known_findings.json'))['findings']
o += ['', '## Appendix B: defects of mllm found and repaired', '', 'All are "fix:" commits in /repo, none is suppressed.', '']
for x in k:
    if x['status'] == 'fixed': o.append('* %s %s' % (x['id'], x['what'].replace('fixed: property=', '')))
o += ['', '## Appendix C: known findings (recorded, not repaired)', '']
n = [x for x in k if x['status'] != 'fixed']
o += ['* %s %s: %s' % (x['id'], x['property'], x['what']) for x in n] or ['None at present.']
open(R + '/DESIGN.md', 'w').write('\n'.join(o) + '\n')
