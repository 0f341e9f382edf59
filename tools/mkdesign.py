"""fills the generated lists of DESIGN.md (between the section headings)"""
import json
import os
import re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(R + '/DESIGN.md').read()
fs = json.load(open(R + '/known_findings.json'))['findings']
a = '\n'.join('* %s %s' % (f['id'], f['text']) for f in fs)
rows = []
SEEDED = {d: R + '/' + k + '/' + d for k in ('seeded', 'seeded_more') if os.path.isdir(R + '/' + k) for d in os.listdir(R + '/' + k)}
for d in sorted(SEEDED):
    m = json.load(open(SEEDED[d] + '/meta.json'))
    rows.append('| %s | %s | %s |' % (d, m['property'], m['what_it_breaks'].replace('|', '/')))
b = '| bug | property (its check reports it) | what it breaks |\n|---|---|---|\n' + '\n'.join(rows)


def fill(s, head, tail, body):
    return re.sub(r'(## %s.*?\n\n.*?:\n)(.*?)(?=\n## %s)' % (head, tail), lambda m: m.group(1) + '\n' + body + '\n', s, flags=re.S)


s = s.replace('@FINDINGS@', '').replace('@SEEDED@', '')
s = fill(s, '4', '5', a)
s = fill(s, '5', '6', b)
open(R + '/DESIGN.md', 'w').write(s)
